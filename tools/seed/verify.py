#!/usr/bin/env python3
"""Which checks object to which planted bug, on clones of /repo (development aid)."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
S = os.path.join(VERIF, "seeded")
d = tempfile.mkdtemp(prefix="wt-seeds-")
subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
if os.path.exists("/repo/Cargo.lock"):
    shutil.copy("/repo/Cargo.lock", d + "/repo/Cargo.lock")
shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "defects"))
for s in sys.argv[1:] or sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, "meta.json")))
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    a = subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(S, s, "patch.diff")])
    r = subprocess.run(["python3", "engine/check.py", "--all"], cwd=d + "/verif", env=dict(os.environ, WT_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    props = re.findall(r"VIOLATION property=(\S+)", r.stdout)
    ok = m["property"] in props
    print("%-28s %s %s apply=%d: %s" % (s, m["property"], "caught" if ok else "MISSED", a.returncode, " ".join(props)), flush=True)
    if ok and "-v" in os.environ.get("V", ""):
        print("\n".join(l for l in r.stdout.splitlines() if l.startswith("  [")))
shutil.rmtree(d)
