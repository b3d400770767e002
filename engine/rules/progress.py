"""No operation runs for ever (C35); the trips around loops are judged in engine/progress.py wherever a rule's run takes them."""
from framework import *
from absint import loops_of


@rule("progress.covered", "C35", "every loop of the crate's own functions lies on the paths that some rule follows", configs=("default", "test"))
def covered(o):
    n = 0
    for i, b in sorted(o.p.bodies.items()):
        if not b["local"] or b["mod"] and b["mod"].split("::")[-1] == "js":
            continue
        ls = loops_of(b)
        if not ls:
            continue
        n += len(ls)
        if b["path"] not in VISITED:    # reached from no rule's functions: on its own
            o.ends(o.x.run(b))
        o.need(b["path"] in VISITED, "%s: its loops are looked at" % Program.norm(b["path"]), b["span"])
        o.fns.setdefault(Program.norm(b["path"]), 0)
    o.need(n >= 10, "loops are found", "", str(n))


@rule("progress.recursion", "C35", "no call leads back to its own function, except the timer's driver asking to be run again", configs=("default", "test"))
def recursion(o):
    p = o.p
    local = {i: b for i, b in p.bodies.items() if b["local"]}
    calls = {i: set() for i in local}

    def walk(x, i):
        if isinstance(x, dict):
            if x.get("inst", -1) in local:
                calls[i].add(x["inst"])
            for v in x.values():
                walk(v, i)
        elif isinstance(x, list):
            for v in x:
                walk(v, i)
    for i, b in local.items():
        for k in b["blocks"]:
            walk([k["s"], k["t"]], i)
    by = {}
    for i, b in local.items():
        by.setdefault(b["path"], set()).add(i)
    for i, b in local.items():      # a closure runs where it is made, at the latest
        if b["closure"] and b.get("parent") in by:
            for j in by[b["parent"]]:
                calls[j].add(i)
    for i, b in sorted(local.items(), key=lambda x: x[1]["path"]):
        seen, todo = set(), list(calls[i])
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            todo += calls[j]
        o.fns.setdefault(p.norm(b["path"]), 0)
        o.need(i not in seen or "::timer::global::" in b["path"], "%s: does not call itself" % p.norm(b["path"]), b["span"])


for text in ("the driver runs at once only while the clock is paused", "the search goes on only with nothing due and a new wait for what comes next",
             "it moves one level down", "once the slot is empty the wheel's time becomes the slot's start, and the search starts over",
             "the slot is marked free exactly when it became empty", "the search goes on past an empty level"):
    more(text, "C35")
