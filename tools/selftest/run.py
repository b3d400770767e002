#!/usr/bin/env python3
"""Runs every check against edited copies of /repo (development aid; no check uses it).

run.py FILE.mut... : each file holds edits
    == name | file | property expected to object (or "quiet")
    <<<
    old text
    ===
    new text
    >>>
(several <<< >>> blocks per edit; a block may start with "@ other/file")
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
N = 6


def parse(path):
    out = []
    for chunk in re.split(r"(?m)^== ", open(path).read())[1:]:
        head, body = chunk.split("\n", 1)
        name, file, want = [x.strip() for x in head.split("|")]
        edits = []
        for m in re.finditer(r"(?ms)^<<<(?: @ (\S+))?\n(.*?)^===\n(.*?)^>>>", body):
            edits.append((m.group(1) or file, m.group(2), m.group(3)))
        out.append((name, edits, want))
    return out


def main(files):
    only = None
    if "-k" in files:
        i = files.index("-k")
        only = files[i + 1]
        files = files[:i] + files[i + 2:]
    muts = [m for f in files for m in parse(f) if not only or re.search(only, m[0])]
    base = tempfile.mkdtemp(prefix="wt-selftest-")
    q = queue.Queue()
    for i in range(min(N, len(muts))):
        d = os.path.join(base, "w%d" % i)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        for f in ("Cargo.lock",):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, d + "/repo/" + f)
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "defects"))
        q.put(d)

    def one(m):
        name, edits, want = m
        d = q.get()
        try:
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            for f, old, new in edits:
                p = d + "/repo/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    old, new = old.rstrip("\n"), new.rstrip("\n")
                if s.count(old) != 1:
                    s, old = [re.sub(r"(?m)^[ \t]*//.*\n", "", x) for x in (s, old)]
                if s.count(old) != 1:
                    return name, want, "EDIT DOES NOT APPLY (%d)" % s.count(old), ""
                open(p, "w").write(s.replace(old, new))
            env = dict(os.environ, WT_REPO=d + "/repo")
            env.pop("WT_CACHE", None)
            r = subprocess.run(["python3", "engine/check.py", "--all"], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            props = re.findall(r"VIOLATION property=(\S+)", r.stdout)
            if "does not compile" in r.stdout:
                return name, want, "DOES NOT COMPILE", r.stdout[:3000]
            if want == "quiet":
                ok = not props
            else:
                ok = any(w in props for w in want.split(","))
            return name, want, ("ok " if ok else "BAD ") + " ".join(props), r.stdout if (not ok or r.returncode not in (0, 1)) else ""
        finally:
            q.put(d)
    bad = 0
    with ThreadPoolExecutor(N) as ex:
        for name, want, res, out in ex.map(one, muts):
            print("%-34s want %-8s %s" % (name, want, res), flush=True)
            if not res.startswith("ok"):
                bad += 1
                lines = [l for l in out.splitlines() if l.startswith("  [") or "Error" in l or "error" in l]
                print("\n".join(lines[:6]))
    shutil.rmtree(base)
    print("%d edits, %d unexpected" % (len(muts), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
