"""tokio::sleep"""
from framework import *

SLEEP = "tokio::sleep::Sleep"
YEARS10 = 10 * 365 * 86400 * 10**9


def state_of(ev):
    """owner of the sleep state word an atomic event touches"""
    if ev.k != "atomic" or ev.ty != "usize":
        return None
    return fld(ev.loc, "state")


def reading(r, st, t, owner):
    """t is certainly a value read from owner.state on this path"""
    return atomic_reading(r, st, t, (owner[0], owner[1] + (("f", "state"),)))


def list_of(ev):
    """owner (timer internals) of the hand-over list of a push"""
    a = ev.args[0]
    return fld(a[1], "list") if a[0] == "ref" else None


def is_upgraded(owner, weak=None):
    """owner is the contents of a successfully upgraded weak reference"""
    if owner is None or owner[1] or owner[0][0] != "P":
        return False
    t = owner[0][1]
    return t[0] == "app" and t[1] == "up" and (weak is None or t[2] == weak)


def deadline_after(st, t, start, dur):
    """'exact' / 'far' / None: t is start+dur where that exists, ages away otherwise"""
    fits = st.f.truth(("app", "iadd_fits", start, dur))
    if t == ("app", "iadd", start, dur) and fits is True:
        return "exact"
    if fits is False and t[0] == "app" and t[1] == "iadd" and t[2] == start and t[3][0] == "dur" and t[3][1] >= YEARS10:
        return "far"
    return None


def sole_now(st):
    n = find(st, "now")
    return st.ev[n[0]].ret if len(n) == 1 else None


@rule("sleep.poll", "C01 C02 C07",
      "Sleep::poll: ready only after seeing the completion bit; pending only after registering the caller's waker and then seeing neither completion nor orphan bit; panics exactly when inert or orphaned")
def poll(o):
    r = o.run(o.p.method(SLEEP, "poll", "Future"))
    self_, cx = r.params[0], r.params[1]
    node = ("f", ("f", ("*", self_), "state"), "Some.0")
    kinds = set()
    for st in r.states:
        loads = [i for i, e in enumerate(st.ev) if state_of(e) is not None]
        for i in loads:
            o.path(r, st, st.ev[i].op == "load", "polling only reads the completion state", st.ev[i])
            ow = state_of(st.ev[i])
            o.path(r, st, ow[0] == ("P", node) and acq(st.ev[i].ords[0]), "the state read is this sleep's own, with acquire ordering or stronger", st.ev[i])
        for i in find(st, "write"):
            o.path(r, st, st.ev[i].loc[0][0] in ("T", "L"), "polling changes no stored field of the sleep", st.ev[i])
        regs = find(st, "register")
        done = any(st.f.bit(st.ev[i].ret, 0) == 1 for i in loads)
        orphan = any(st.f.bit(st.ev[i].ret, 1) == 1 and st.f.bit(st.ev[i].ret, 0) == 0 for i in loads)
        if st.exit.k == "return":
            v = variant(st.ret)
            kinds.add(v)
            if v == "Ready":
                o.path(r, st, done, "reports ready only when the completion bit was read as set")
            elif v == "Pending":
                good = False
                for i in regs:
                    e = st.ev[i]
                    if not is_cx_waker(e.waker, cx) or fld(e.loc, "waker") is None:
                        continue
                    for j in loads:
                        if j > i and fld(e.loc, "waker") == state_of(st.ev[j]) and st.f.bit(st.ev[j].ret, 0) == 0 and st.f.bit(st.ev[j].ret, 1) == 0:
                            good = True
                o.path(r, st, good, "reports pending only after registering the polling task and then reading the state as neither complete nor orphaned")
                o.path(r, st, not done, "a completion that was seen is reported")
            else:
                o.path(r, st, False, "returns a definite Ready or Pending")
        elif st.exit.k == "panic":
            kinds.add("panic-orphan" if orphan else "panic-inert")
            inert = st.f.const(("disc", ("f", ("*", self_), "state"))) == 0
            o.path(r, st, (inert or orphan) and not done, "panics only for an inert or orphaned sleep")
        else:
            o.path(r, st, st.exit.k == "loopback", "ends definitely")
    o.need(kinds == {"Ready", "Pending", "panic-orphan", "panic-inert"}, "Sleep::poll has ready, pending, orphaned and inert outcomes", r.body["span"], str(kinds))


@rule("sleep.is_elapsed", "C01 C03", "Sleep::is_elapsed is exactly the completion bit")
def is_elapsed(o):
    r = o.run(o.p.method(SLEEP, "is_elapsed"))
    self_ = r.params[0]
    node = ("f", ("f", ("*", self_), "state"), "Some.0")
    n = 0
    for st in r.rets():
        if st.f.const(("disc", ("f", ("*", self_), "state"))) == 0:
            o.path(r, st, st.ret == FALSE, "an inert sleep is not elapsed")
            continue
        loads = [e for e in st.ev if state_of(e) is not None and e.op == "load" and state_of(e)[0] == ("P", node)]
        good = bool(loads)
        for v in (0, 1):
            f = under(st, st.ret, v)
            if f is not None:
                n += 1
                good = good and any(f.bit(e.ret, 0) == v for e in loads)
        o.path(r, st, good, "true exactly when the completion bit is set")
    o.need(n >= 2 and not r.panics(), "is_elapsed answers both ways and never panics", r.body["span"])


def deadline_field(o):
    r = o.run(o.p.method(SLEEP, "deadline"))
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return" and st.ret == ("f", ("*", r.params[0]), "deadline"), "returns the stored deadline"):
            return None
    return "deadline"


@rule("sleep.deadline", "C03 C26 C27", "Sleep::deadline returns the stored deadline unchanged")
def deadline(o):
    deadline_field(o)


def check_created(o, r, st, weak, at, what):
    """Returned sleep of one path of a constructor bound to the timer behind `weak`."""
    ret = st.ret
    o.path(r, st, field(ret, "deadline") == at, what + ": the stored deadline is the requested one")
    ups = [e for e in st.ev if e.k == "upgrade"]
    alive = [e for e in ups if st.f.truth(e.cond)]
    state = field(ret, "state")
    pushes = calls(st, LIST.replace("(push|take|take_and_seal|pop)", "push"))
    if not alive:
        o.path(r, st, bool(ups) and variant(state) == "None" and not pushes, what + ": bound to a dead timer the sleep is inert")
        return "dead"
    if not o.path(r, st, len(pushes) == 1, what + ": handed to the timer exactly once"):
        return "?"
    i = pushes[0]
    ev = st.ev[i]
    ow = list_of(ev)
    o.path(r, st, is_upgraded(ow, weak), what + ": handed to the timer of the handle", ev)
    nodep = ev.vals[1] if ev.vals[1][0] == "ref" and ev.vals[1][1][0][0] == "T" else ev.args[1]
    if nodep[0] == "ref" and nodep[1][0][0] == "L":
        nodep = r.e.read(st, nodep[1])
    node = r.e.read(st, r.e.deref(st, nodep))
    d = field(node, "data")
    o.path(r, st, field(field(d, "at"), "$data") == some(at), what + ": the deadline handed over is the requested one", ev)
    o.path(r, st, field(field(d, "state"), "$v") == I(0), what + ": starts neither complete nor orphaned", ev)
    o.path(r, st, variant(field(field(d, "slot"), "$data")) == "None", what + ": starts with no heap slot", ev)
    o.path(r, st, field(d, "inner") == weak or field(d, "inner")[0] == "app" and weak in atoms(field(d, "inner")), what + ": bound to the handle's timer", ev)
    o.path(r, st, field(field(node, "enqueued"), "$v") == I(0), what + ": starts outside the list", ev)
    late = [e for e in st.ev[i:] if e.k == "write" and nodep[0] == "ref" and e.loc[0] == nodep[1][0]]
    o.path(r, st, not late, what + ": nothing is filled in after the hand-over", ev)
    wakes = [j for j in find(st, "wake_task") if fld(st.ev[j].loc, "waker") == ow]
    dp = st.f.const(("disc", ev.ret))
    if variant(state) == "Some":
        o.path(r, st, dp == 0, what + ": live only when the timer accepted it")
        o.path(r, st, field(state, "Some.0") == nodep, what + ": keeps the node it handed over")
        o.path(r, st, any(j > i for j in wakes), what + ": the timer is woken after the hand-over")
        return "live"
    o.path(r, st, variant(state) == "None" and dp != 0, what + ": inert only when the timer refused it")
    return "refused"


@rule("sleep.new", "C01 C02 C07 C09", "a new sleep carries its deadline to the timer: node filled in before the hand-over, timer woken after it; refused or dead timer makes it inert")
def new(o):
    r = o.run(o.p.fn("tokio::sleep", "sleep_until"), opaque=[LIST, HANDLE])
    outs = set()
    at = r.params[0]
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "creating a sleep does not panic"):
            continue
        h = calls(st, HANDLE)
        o.path(r, st, len(h) == 1, "uses the default timer")
        if h:
            outs.add(check_created(o, r, st, field(st.ev[h[0]].ret, "inner"), at, "sleep_until"))
    o.need(outs == {"dead", "refused", "live"}, "sleep_until has live, refused and dead outcomes", r.body["span"], str(outs))


@rule("sleep.new_duration", "C26", "sleep(d) is sleep_until(now + d), or ages away when that does not exist")
def newd(o):
    r = o.run(o.p.fn("tokio::sleep", "sleep"), opaque=[LIST, HANDLE])
    outs = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "creating a sleep does not panic"):
            continue
        now = sole_now(st)
        at = field(st.ret, "deadline")
        k = deadline_after(st, at, now, r.params[0]) if now else None
        outs.add(k)
        o.path(r, st, k is not None, "the deadline is now + duration, or ages away when that overflows")
        o.path(r, st, not any(e.k == "partial" and e.args[1] == r.params[0] for e in st.ev), "no panicking addition of the caller's duration")
        h = calls(st, HANDLE)
        if h:
            check_created(o, r, st, field(st.ev[h[0]].ret, "inner"), at, "sleep")
    o.need(outs == {"exact", "far"}, "sleep has both outcomes", r.body["span"], str(outs))


def node_steps(st, node):
    return [(i, e) for i, e in enumerate(st.ev) if e.k == "atomic" and state_of(e) is not None]


@rule("sleep.reset", "C01 C03 C07 C09", "Sleep::reset: new deadline stored, then the generation advanced clearing completion, then handed to the timer and the timer woken; orphaned or refused makes it inert")
def reset(o):
    r = o.run(o.p.method(SLEEP, "reset"), opaque=[LIST])
    self_, at = r.params
    sterm = ("f", ("*", self_), "state")
    node = ("f", sterm, "Some.0")
    sloc = (("P", self_), (("f", "state"),))
    dloc = (("P", self_), (("f", "deadline"),))
    outs = set()
    for st in r.states:
        if st.exit.k != "return":
            o.path(r, st, st.exit.k == "loopback", "resetting does not panic")
            continue
        o.path(r, st, final(st, dloc) == at, "the reported deadline becomes the new one")
        if st.f.const(("disc", sterm)) == 0:
            outs.add("inert")
            continue
        ups = [e for e in st.ev if e.k == "upgrade"]
        if ups and not any(st.f.truth(e.cond) for e in ups):
            outs.add("dead")
            continue
        fs = final(st, sloc)
        cas = [(i, e) for i, e in node_steps(st, node) if e.op == "cas" and e.success]
        ops = [(i, e) for i, e in node_steps(st, node) if e.op not in ("load", "cas")]
        o.path(r, st, not ops, "the state is only advanced by compare-and-swap", ops[0][1] if ops else None)
        if not cas:
            # gave up: only because the orphan bit was seen
            seen = any(f_.bit(t, 1) == 1 and reading(r, st, t, (("P", node), (("f", "data"),))) for f_ in [st.f] for t in list(st.f.bits) + list(st.f.eq))
            outs.add("orphaned")
            o.path(r, st, seen, "the generation is advanced unless the sleep was seen orphaned")
            o.path(r, st, fs is not None and variant(fs) == "None", "an orphaned sleep becomes inert")
            continue
        o.path(r, st, len(cas) == 1, "the generation is advanced once", cas[0][1])
        i, e = cas[0]
        ow = state_of(e)
        o.path(r, st, ow[0] == ("P", node), "the state advanced is this sleep's", e)
        diff = binop("Sub", e.val, binop("BitAnd", e.old, I(mask(64) & ~3), 64), 64)
        o.path(r, st, reading(r, st, e.old, ow) and is_i(diff) and diff[1] % 4 == 0 and diff[1] != 0, "the new state has a new generation and neither completion nor orphan bit", e)
        o.path(r, st, st.f.bit(e.old, 1) == 0, "an orphaned sleep is not revived", e)
        o.path(r, st, rel(e.ords[0]), "the new generation is published with release ordering", e)
        aw = [j for j in find(st, "write") if mtx(st.ev[j].loc, "at") is not None]
        o.path(r, st, bool(aw) and all(mtx(st.ev[j].loc, "at") == ow and st.ev[j].val == some(at) for j in aw), "the deadline handed over is the new one", e)
        o.path(r, st, bool(aw) and min(aw) < i, "the new deadline is stored before the generation is advanced (else a concurrent timer pairs the new generation with the old deadline)", e)
        pushes = [j for j in calls(st, LIST)]
        if not o.path(r, st, len(pushes) == 1 and "push" in st.ev[pushes[0]].path, "handed to the timer exactly once"):
            continue
        j = pushes[0]
        pe = st.ev[j]
        o.path(r, st, j > i, "handed to the timer after the generation was advanced", pe)
        lo = list_of(pe)
        o.path(r, st, is_upgraded(lo), "handed to the timer it is bound to", pe)
        o.path(r, st, node in atoms(pe.vals[1]) or pe.vals[1] == node or pe.args[1] == ("ref", (sloc[0], sloc[1] + (("f", "Some.0"),))), "the node handed over is its own", pe)
        if st.f.const(("disc", pe.ret)) == 0:
            outs.add("live")
            o.path(r, st, any(k > j and fld(st.ev[k].loc, "waker") == lo for k in find(st, "wake_task")), "the timer is woken after the hand-over", pe)
            o.path(r, st, fs is None or variant(fs) != "None", "stays live")
        else:
            outs.add("refused")
            o.path(r, st, fs is not None and variant(fs) == "None", "refused by the timer it becomes inert", pe)
    o.need(outs == {"inert", "dead", "orphaned", "live", "refused"}, "Sleep::reset has all its outcomes", r.body["span"], str(outs))


@rule("sleep.drop", "C04 C09", "dropping a live sleep withdraws its deadline, hands it to the timer and wakes the timer")
def drop(o):
    r = o.run(o.p.method(SLEEP, "drop", "Drop"), opaque=[LIST])
    self_ = r.params[0]
    sterm = ("f", ("*", self_), "state")
    node = ("f", sterm, "Some.0")
    outs = set()
    for st in r.states:
        if st.exit.k != "return":
            o.path(r, st, st.exit.k == "loopback", "dropping does not panic")
            continue
        if st.f.const(("disc", sterm)) == 0:
            outs.add("inert")
            continue
        ups = [e for e in st.ev if e.k == "upgrade"]
        if ups and not any(st.f.truth(e.cond) for e in ups):
            outs.add("dead")
            continue
        aw = [j for j in find(st, "write") if mtx(st.ev[j].loc, "at") is not None]
        pushes = calls(st, LIST)
        if not o.path(r, st, len(pushes) == 1 and "push" in st.ev[pushes[0]].path, "a live sleep is handed to the timer when dropped"):
            continue
        j = pushes[0]
        pe = st.ev[j]
        lo = list_of(pe)
        o.path(r, st, bool(aw) and max(aw) < j and all(variant(st.ev[k].val) == "None" and mtx(st.ev[k].loc, "at")[0] == ("P", node) for k in aw), "its deadline is withdrawn before the hand-over", pe)
        o.path(r, st, is_upgraded(lo), "handed to the timer it is bound to", pe)
        o.path(r, st, node in atoms(pe.vals[1]) or pe.vals[1] == node, "the node handed over is its own", pe)
        if st.f.const(("disc", pe.ret)) == 1:
            outs.add("refused")
            continue
        outs.add("live")
        o.path(r, st, any(k > j and fld(st.ev[k].loc, "waker") == lo for k in find(st, "wake_task")), "the timer is woken after the hand-over", pe)
    o.need(outs >= {"inert", "dead", "live"}, "Drop for Sleep has all its outcomes", r.body["span"], str(outs))
