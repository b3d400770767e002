#!/usr/bin/env python3
"""Makes seeded/<id> from specs/<id>.seed: `property`, `needs`, `breaks`, edit blocks and the demonstration.

    @property C10
    @needs ...
    @breaks ...
    @file src/x.rs
    <<<
    old lines
    ===
    new lines
    >>>
    @demo
    rust test
With -c, runs the demonstration with and without it in a scratch copy; with -t also builds and runs the stable tests (on /repo itself for a moment)."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")


def parse(path):
    d = {"edits": []}
    f = None
    mode = None
    demo = []
    for l in open(path):
        if mode == "demo":
            demo.append(l)
        elif mode in ("old", "new"):
            if mode == "old" and l == "===\n":
                mode = "new"
            elif mode == "new" and l == ">>>\n":
                d["edits"].append((f, "".join(old), "".join(new)))
                mode = None
            else:
                (old if mode == "old" else new).append(l)
        elif l == "<<<\n":
            mode, old, new = "old", [], []
        elif l.startswith("@file "):
            f = l.split()[1]
        elif l == "@demo\n":
            mode = "demo"
        elif l.startswith("@"):
            k, v = l[1:].strip().split(" ", 1)
            d[k] = v
    d["demo"] = "".join(demo)
    return d


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(sid):
    d = parse(os.path.join(HERE, "specs", sid + ".seed"))
    w = "/tmp/seed.%s" % sid
    sh("rm -rf %s; mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w, w, w))
    for f, a, b in d["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        n = t.count(a)
        if n != 1:
            sys.exit("%s: %d matches in %s of\n%s" % (sid, n, f, a))
        open(p, "w").write(t.replace(a, b))
    diff = sh("cd %s && git diff" % w).stdout
    o = os.path.join(OUT, sid)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.rs"), "w").write(d["demo"])
    shutil.copy(os.path.join(HERE, "demo%s.sh" % ("-" + d["kind"] if "kind" in d else "")), os.path.join(o, "demo.sh"))
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    return w


def confirm(sid, w):
    env = dict(os.environ, DEMO_TARGET="/tmp/demo/target")
    r = {}
    bad = sh("cd %s && bash %s/demo.sh" % (w, os.path.join(OUT, sid)), env=env)
    sh("cd %s && git checkout -q ." % w)
    good = sh("cd %s && bash %s/demo.sh" % (w, os.path.join(OUT, sid)), env=env)
    print("%-28s demo: patched rc=%d unpatched rc=%d" % (sid, bad.returncode, good.returncode))
    if bad.returncode == 0:
        print(bad.stdout[-1500:])
    if good.returncode:
        print(good.stdout[-3000:])
    elif "-v" in sys.argv:
        print(bad.stdout[-1500:])
    if "-t" not in sys.argv:
        sh("rm -rf %s" % w)
        return
    # build and stable tests, on /repo itself for a moment
    p = os.path.join(OUT, sid, "patch.diff")
    a = sh("git -C /repo apply %s" % p)
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed.out.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/seed.out.json"))
        names = base.get("stable") or base.get("passing") or base.get("passed") or []
        ok = set(got.get("passed") or [])
        miss = [n for n in names if n not in ok]
        print("%-28s apply=%d build=%d stable=%d missing=%s" % (sid, a.returncode, b.returncode, len(names), miss[:5]))
        if b.returncode:
            print(b.stdout[-1500:])
        c = sh("cd /verif && python3 engine/check.py --all")
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-28s checks: %s" % (sid, " ".join(v) or "MISSED"))
    finally:
        sh("git -C /repo checkout -- .")
    sh("rm -rf %s" % w)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-5] for f in os.listdir(os.path.join(HERE, "specs")) if f.endswith(".seed"))
    for s in ids:
        w = make(s)
        if "-c" in sys.argv:
            confirm(s, w)
        else:
            sh("rm -rf %s" % w)
