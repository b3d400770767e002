"""Send, Sync, Unpin and pinning: what the type checker's trait solver says about the crate's own types."""
from framework import *
from rules.interval import SLEEP_MODEL
from rules.timeout import TO, FPOLL

# (Send, Sync, Unpin): 1 = always, "=" = exactly as the type parameter
TABLE = {
    "Sleep": (1, 1, 1), "Interval": (1, 1, 1), "MissedTickBehavior": (1, 1, 1), "Elapsed": (1, 1, 1),
    "Instant": (1, 1, 1), "SystemTime": (1, 1, 1), "SystemTimeError": (1, 1, 1), "Key": (1, 1, 1),
    "Timeout": ("=", "=", "="), "DelayQueue": ("=", "=", 1), "Expired": ("=", "=", "="),
}
NAMES = ("Send", "Sync", "Unpin")


def short(p):
    return p[len("wasmtimer::"):] if p.startswith("wasmtimer::") else p


@rule("autos.types", "C30", "every public timer type is Send, Sync and Unpin exactly as what it holds allows, for all type parameters (solved by the compiler's trait solver under every combination of assumptions)", configs=("default", "test"))
def types(o):
    for name, want in TABLE.items():
        c = [a for a in o.p.autos if a["kind"] == "type" and a["reach"] and a["name"] == name]
        if not o.need(len(c) == 1, "the public type %s exists once" % name, "", str([a["path"] for a in c])):
            continue
        a = c[0]
        o.fns.setdefault(short(a["path"]), 0)
        o.sites.add(a["span"])
        for k, w in enumerate(want):
            for row in a["rows"]:
                fut, asm, got = row[0], row[1:4], row[4 + k]
                if name == "Timeout" and not fut:
                    continue      # made for futures only
                exp = 1 if w == 1 or len(a["rows"]) == 1 else asm[k]
                if got == exp:
                    o.need(True, "")
                    continue
                if exp:
                    o.need(False, "%s is %s whenever what it holds is" % (name, NAMES[k]), a["span"], "assumptions on the parameter: %s" % dict(zip(("Future",) + NAMES, row[:4])))
                else:
                    o.need(False, "%s is not %s when what it holds is not" % (name, NAMES[k]), a["span"], "assumptions on the parameter: %s" % dict(zip(("Future",) + NAMES, row[:4])))
                break


@rule("autos.futures", "C30", "the futures of the async functions can be sent between threads", configs=("default", "test"))
def futures(o):
    want = ["Interval::tick"] + (["test_utils::advance"] if o.x.config == "test" else [])
    for w in want:
        c = [a for a in o.p.autos if a["kind"] == "returns" and a["path"].endswith("::" + w)]
        if not o.need(len(c) == 1, "%s exists once" % w):
            continue
        o.sites.add(c[0]["span"])
        o.need(all(row[4] for row in c[0]["rows"]), "the future of %s is Send" % w, c[0]["span"])


@rule("autos.shared", "C30 C34", "whatever the crate's global registrations reach through pointers is Send and Sync, and no hand-written Send or Sync claims more than the fields allow", configs=("default", "test"))
def shared(o):
    hid = [a for a in o.p.autos if a["kind"] == "hidden"]
    o.need(any(short(a["path"]) == "timer::Inner" for a in hid), "the timer's shared state is found behind its registration", "", str([a["path"] for a in hid]))
    for a in hid:
        o.sites.add(a["span"])
        for k in (0, 1):
            o.need(a["rows"][k], "%s, shared by all threads through a pointer, is %s" % (short(a["path"]), NAMES[k]), a["span"])
    for a in o.p.autos:
        for tr, f, span in a["manual"]:
            o.need(False, "the hand-written %s of %s holds for its field %s" % (tr, short(a["path"]), f), span)
        if a["kind"] == "type":
            o.obligations += 1


@rule("autos.pinned", "C30 C34", "a timeout never moves or overwrites the future it polls pinned: through a pinned timeout that future is only ever polled")
def pinned(o):
    n = 0
    for i in o.p.roots:
        b = o.p.bodies[i]
        if b["self"] is None or o.p.norm(b["self"]) != TO or b["closure"] or b["argc"] < 1:
            continue
        t = o.p.tname(b["locals"][1][0])
        pin = re.match(r"std::pin::Pin<&('[a-z_]+ )?mut .*Timeout<", t)
        dropping = b["trait"] and b["trait"].endswith("ops::Drop")
        if not pin and not dropping:
            continue
        n += 1
        out = o.p.tname(b["locals"][0][0])
        o.need(not re.match(r"&('[a-z_]+ )?mut [A-Z]\w*$", out), "%s: hands out no unpinned access to the future" % o.p.norm(b["path"]), b["span"], out)
        r = o.run(b, extra=SLEEP_MODEL, key="sleep")
        fl = (("P", r.params[0]), (("f", "future"),))
        whole = (("P", r.params[0]), ())
        for st in r.states:
            bad = None
            polls = set(calls(st, FPOLL))
            for j, e in enumerate(st.ev):
                if e.k == "write" and (e.loc == whole or e.loc[0] == fl[0] and e.loc[1][:1] == fl[1]):
                    bad = e
                elif e.k in ("call", "partial") and j not in polls and any(contains(a, ("ref", fl)) for a in e.d.get("args", ())):
                    bad = e
            o.path(r, st, bad is None, "the pinned future is polled and nothing else", bad)
            if pin and not out.startswith("std::pin::Pin<"):
                o.path(r, st, st.ret is None or not moved(st.ret, r.params[0]), "the pinned future is not moved out", bad)
    o.need(n >= 1, "the polling of a pinned timeout is found")


def moved(t, p):
    """does t contain the future itself (not what polling it gave)?"""
    return contains(t, ("f", p, "future")) or contains(t, ("f", ("*", p), "future"))
