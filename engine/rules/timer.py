"""timer: the timer's own runs"""
from framework import *
from rules.sleep import state_of, is_upgraded

TIMER = "timer::Timer"
B = [LIST, HEAP]


def op_of(ev):
    return ev.path.rsplit("::", 1)[-1]


def list_calls(st, name=None, lo=0):
    return [i for i in calls(st, LIST, lo) if name is None or op_of(st.ev[i]) == name]


def heap_calls(st, name=None, lo=0):
    return [i for i in calls(st, HEAP, lo) if name is None or op_of(st.ev[i]) == name]


def popped(st, ev):
    """Is the Option returned by ev Some (1), None (0) or undecided?"""
    return st.f.const(("disc", ev.ret))


def heap_of(ev):
    a = ev.args[0]
    return a[1] if a[0] == "ref" else (("P", a), ())


@rule("timer.poll", "C01 C02 C03 C04 C06",
      "Timer::poll: registers the driver before taking the batch; every queued node replaces (or withdraws) its heap entry exactly once, pairing the deadline with a generation read before it; stops only when the batch is empty", also="C05")
def poll(o):
    r = o.run(o.p.method(TIMER, "poll", "Future"), opaque=B)
    self_, cx = r.params
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k in ("return", "loopback"), "the timer's run does not panic"):
            continue
        takes = list_calls(st)
        takes = [i for i in takes if op_of(st.ev[i]) in ("take", "take_and_seal")]
        regs = find(st, "register")
        if not o.path(r, st, len(takes) == 1 and op_of(st.ev[takes[0]]) == "take", "takes the queued batch once"):
            continue
        tk = takes[0]
        inner = fld(st.ev[tk].args[0][1], "list") if st.ev[tk].args[0][0] == "ref" else None
        o.path(r, st, inner is not None and any(j < tk and is_cx_waker(st.ev[j].waker, cx) and fld(st.ev[j].loc, "waker") == inner for j in regs),
               "the driver's waker is registered before the batch is taken", st.ev[tk])
        pops = list_calls(st, "pop")
        for i in pops:
            src = origins(r, st.ev[i].vals[0])
            o.path(r, st, st.ev[tk].ret in src, "nodes come from the batch taken", st.ev[i])
        if st.exit.k == "return":
            kinds.add("end")
            o.path(r, st, variant(st.ret) == "Pending", "the timer's run never completes")
            o.path(r, st, bool(pops) and popped(st, st.ev[pops[-1]]) == 0, "stops only when the batch is empty")
        for n, i in enumerate(pops):
            if popped(st, st.ev[i]) == 0:
                continue
            hi = pops[n + 1] if n + 1 < len(pops) else len(st.ev)
            node = field(st.ev[i].ret, "Some.0")
            kinds.add(episode(o, r, st, i, hi, node))
    o.need(kinds == {"end", "schedule-new", "schedule-replace", "withdraw", "withdraw-none"}, "Timer::poll has all its outcomes", r.body["span"], str(kinds))


def episode(o, r, st, lo, hi, node):
    own = (("P", node), (("f", "data"),))
    ats = [j for j in find(st, "lock", lo, hi) if mtx(st.ev[j].loc, "at") == own]
    slots = [j for j in find(st, "lock", lo, hi) if mtx(st.ev[j].loc, "slot") == own]
    gens = [j for j in range(lo, hi) if state_of(st.ev[j]) == own]
    if not o.path(r, st, len(ats) == 1, "the deadline of a queued node is read once", st.ev[lo]):
        return "?"
    for j in gens:
        o.path(r, st, st.ev[j].op == "load", "scheduling only reads the sleep's state", st.ev[j])
    at = st.ev[ats[0]].val
    o.path(r, st, not [j for j in find(st, "write", lo, hi) if mtx(st.ev[j].loc, "at") is not None], "scheduling does not change the requested deadline", st.ev[lo])
    some_ = st.f.const(("disc", at))
    if not o.path(r, st, some_ is not None and bool(slots), "a queued node is either scheduled or withdrawn", st.ev[lo]):
        return "?"
    old = st.ev[slots[0]].val
    had = st.f.const(("disc", old))
    ops = [j for j in heap_calls(st, None, lo) if j < hi and op_of(st.ev[j]) in ("push", "remove", "pop")]
    rem = [j for j in ops if op_of(st.ev[j]) == "remove"]
    push = [j for j in ops if op_of(st.ev[j]) == "push"]
    o.path(r, st, not [j for j in ops if op_of(st.ev[j]) == "pop"], "updating one node expires no other", st.ev[lo])
    if not o.path(r, st, had is not None, "an existing heap entry is noticed", st.ev[slots[0]]):
        return "?"
    if had:
        o.path(r, st, len(rem) == 1 and st.ev[rem[0]].args[1] == field(old, "Some.0"), "the node's old heap entry is removed, by its own slot", st.ev[slots[0]])
    else:
        o.path(r, st, not rem, "no other heap entry is removed", st.ev[slots[0]])
    sloc = st.ev[slots[0]].loc
    fs = [st.ev[j] for j in find(st, "write", lo, hi) if st.ev[j].loc == sloc]
    if some_:
        if not o.path(r, st, len(push) == 1, "a node with a deadline gets exactly one heap entry", st.ev[ats[0]]):
            return "?"
        p = st.ev[push[0]]
        h = p.args[1]
        o.path(r, st, field(h, "at") == field(at, "Some.0"), "the heap entry has the node's deadline", p)
        o.path(r, st, field(h, "node") == node, "the heap entry refers to the node", p)
        g = [j for j in gens if field(h, "gen") == binop("Shr", st.ev[j].ret, I(2), 64)]
        o.path(r, st, bool(g), "the heap entry has the node's generation", p)
        o.path(r, st, bool(g) and min(g) < ats[0] and acq(st.ev[min(g)].ords[0]), "the generation is read (acquire) before the deadline", p)
        o.path(r, st, bool(fs) and fs[-1].val == some(p.ret), "the node remembers its heap slot", p)
        return "schedule-replace" if had else "schedule-new"
    o.path(r, st, not push, "a withdrawn node gets no heap entry", st.ev[ats[0]])
    o.path(r, st, not had or bool(fs) and variant(fs[-1].val) == "None", "a withdrawn node forgets its heap slot", st.ev[ats[0]])
    return "withdraw" if had else "withdraw-none"


@rule("timer.advance", "C01 C02 C03 C05",
      "Timer::advance_to: expires exactly the heads with deadline <= now, until none is left; each is completed only in the generation it was scheduled for, and its task woken", also="C04")
def advance(o):
    r = o.run(o.p.method(TIMER, "advance_to"), opaque=B)
    now = r.params[1]
    kinds = set()
    for st in r.states:
        hc = heap_calls(st)
        lo = last_loop(st)
        for i in hc:
            o.path(r, st, op_of(st.ev[i]) in ("peek", "pop"), "expiring only looks at and pops the heap", st.ev[i])
        pk = [i for i in hc if op_of(st.ev[i]) == "peek"]
        pp = [i for i in hc if op_of(st.ev[i]) == "pop"]
        if any(popped(st, st.ev[i]) == 1 and popped(st, st.ev[j]) == 0 for i, j in zip(hc, hc[1:]) if i in pk and j in pp):
            continue    # what was peeked at is there to be popped (heap.*)
        for i in pp:
            prev = [j for j in hc if j < i]
            okk = bool(prev) and prev[-1] in pk and prev[-1] >= lo
            if okk:
                pe = st.ev[prev[-1]]
                hat = ("f", ("*", field(pe.ret, "Some.0")), "at")
                okk = popped(st, pe) == 1 and st.f.holds("le", hat, now) is True
            o.path(r, st, okk, "an entry is expired only when its deadline is at or before now", st.ev[i])
        for n, i in enumerate(pp):
            if popped(st, st.ev[i]) == 0:
                continue
            hi = min([j for j in hc if j > i] + [len(st.ev)])
            x = field(st.ev[i].ret, "Some.0")
            own = (("P", field(x, "node")), (("f", "data"),))
            sw = [e for e in st.ev[i:hi] if e.k == "write" and mtx(e.loc, "slot") == own]
            o.path(r, st, bool(sw) and variant(sw[-1].val) == "None", "an expired sleep forgets its heap slot", st.ev[i])
            steps = [(j, st.ev[j]) for j in range(i, hi) if state_of(st.ev[j]) is not None]
            old = mul(field(x, "gen"), I(4), 64)
            cas = [(j, e) for j, e in steps if e.op == "cas"]
            o.path(r, st, all(e.op in ("cas", "load") for _, e in steps), "completion is marked only by compare-and-swap", st.ev[i])
            good = len(cas) == 1 and state_of(cas[0][1]) == own and cas[0][1].old == old and cas[0][1].val in (binop("BitOr", old, I(1), 64), add(old, I(1), 64)) and not cas[0][1].weak
            if not o.path(r, st, good, "the sleep is completed exactly if it is still in the generation the entry was made for", st.ev[i]):
                continue
            j, e = cas[0]
            if e.success:
                kinds.add("completed")
                o.path(r, st, rel(e.ords[0]) and any(k > j and fld(st.ev[k].loc, "waker") == own for k in find(st, "wake_task", i, hi)), "the completed sleep's task is woken after completion is marked", e)
            else:
                kinds.add("stale")
        if st.exit.k == "return":
            last = hc[-1] if hc else None
            okk = last is not None and last in pk and last >= lo
            if okk:
                pe = st.ev[last]
                hat = ("f", ("*", field(pe.ret, "Some.0")), "at")
                d = popped(st, pe)
                okk = d == 0 or d == 1 and st.f.holds("lt", now, hat) is True
                kinds.add("empty" if d == 0 else "not-due")
            o.path(r, st, okk, "stops only when nothing is due any more")
        elif st.exit.k == "panic":
            okk = bool(pp) and bool(pk) and popped(st, st.ev[pp[-1]]) == 0 and pk[-1] < pp[-1] and popped(st, st.ev[pk[-1]]) == 1
            o.path(r, st, okk, "panics at most for a head that vanished between peek and pop (excluded by the heap rules)")
    o.need(kinds == {"completed", "stale", "empty", "not-due"}, "Timer::advance_to has all its outcomes", r.body["span"], str(kinds))


@rule("timer.next_event", "C05 C09", "Timer::next_event is the deadline of the heap's head, none when empty")
def next_event(o):
    r = o.run(o.p.method(TIMER, "next_event"), opaque=B)
    n = set()
    for st in r.states:
        hc = heap_calls(st)
        okk = st.exit.k == "return" and len(hc) == 1 and op_of(st.ev[hc[0]]) == "peek"
        if okk:
            pe = st.ev[hc[0]]
            d = popped(st, pe)
            n.add(d)
            okk = (d == 0 and variant(st.ret) == "None") or (d == 1 and st.ret == some(("f", ("*", field(pe.ret, "Some.0")), "at")))
        o.path(r, st, okk, "is the head's deadline, or none")
    o.need(n == {0, 1}, "next_event answers both ways", r.body["span"])


@rule("timer.order", "C05", "heap entries are ordered by their deadline")
def order(o):
    r = o.run(o.p.method("timer::HeapTimer", "cmp", "Ord"))
    a, b = [("f", ("*", x), "at") for x in r.params]
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and value_is_cmp(st, st.ret, a, b), "compares deadlines")
    r = o.run(o.p.method("timer::HeapTimer", "partial_cmp", "PartialOrd"))
    a, b = [("f", ("*", x), "at") for x in r.params]
    for st in r.states:
        okk = st.exit.k == "return" and variant(st.ret) == "Some"
        o.path(r, st, okk and value_is_cmp(st, field(st.ret, "Some.0"), a, b), "compares deadlines")
    for m, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        bd = o.p.method("timer::HeapTimer", m, "PartialOrd", must=False)
        if bd:
            r = o.run(bd)
            a, b = [("f", ("*", x), "at") for x in r.params]
            for st in r.states:
                o.path(r, st, st.exit.k == "return" and equiv(st, st.ret, compare(op, a, b)), "compares deadlines")


def value_is_cmp(st, t, a, b):
    if t == ("cmp", a, b):
        return True
    want = {"Less": "lt", "Equal": "eq", "Greater": "gt"}
    if t[0] == "ag":
        return st.f.rel(a, b) == want.get(t[2])
    return False


def equiv(st, t, c):
    for v in (0, 1):
        f = under(st, t, v)
        if f is not None and f.truth(c) is not bool(v):
            return False
    return True


@rule("timer.drop", "C07", "Drop for Timer seals the list first, then marks every queued and every tracked sleep orphaned and wakes its task")
def drop(o):
    r = o.run(o.p.method(TIMER, "drop", "Drop"), opaque=B)
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k in ("return", "loopback"), "destroying the timer does not panic"):
            continue
        lc, hc = list_calls(st), heap_calls(st)
        seal = [i for i in lc if op_of(st.ev[i]) == "take_and_seal"]
        if not o.path(r, st, len(seal) == 1 and seal[0] == min(lc + hc), "the hand-over list is sealed before anything is drained"):
            continue
        lp = [i for i in lc if op_of(st.ev[i]) == "pop"]
        hp = [i for i in hc if op_of(st.ev[i]) == "pop"]
        o.path(r, st, set(lc) == set(lp + seal) and all(op_of(st.ev[i]) in ("pop", "peek") for i in hc), "only drains")
        for i in lp:
            o.path(r, st, st.ev[seal[0]].ret in origins(r, st.ev[i].vals[0]), "the drained list is the sealed one", st.ev[i])
        for i in lp + hp:
            if popped(st, st.ev[i]) == 0:
                continue
            hi = min([j for j in lp + hp if j > i] + [len(st.ev)])
            x = field(st.ev[i].ret, "Some.0")
            node = x if i in lp else field(x, "node")
            own = (("P", node), (("f", "data"),))
            mark = [j for j in range(i, hi) if state_of(st.ev[j]) == own and orphaning(st.ev[j])]
            bad = [j for j in range(i, hi) if state_of(st.ev[j]) is not None and st.ev[j].op not in ("load",) and j not in mark and not (st.ev[j].op == "cas" and not st.ev[j].success)]
            kinds.add("queued" if i in lp else "tracked")
            if st.exit.k == "loopback" and not mark and any(st.ev[j].k == "loop" for j in range(i, hi)):
                continue  # a retry loop of the marking itself
            o.path(r, st, bool(mark) and not bad, "each sleep is marked orphaned, keeping its completion", st.ev[i])
            o.path(r, st, bool(mark) and any(k > mark[0] and fld(st.ev[k].loc, "waker") == own for k in find(st, "wake_task", i, hi)), "its task is woken after the mark", st.ev[i])
        if st.exit.k == "return":
            kinds.add("end")
            o.path(r, st, bool(lp) and popped(st, st.ev[lp[-1]]) == 0, "stops only when the list is empty")
            o.path(r, st, bool(hp) and popped(st, st.ev[hp[-1]]) == 0, "stops only when the heap is empty")
    o.need(kinds == {"queued", "tracked", "end"}, "Drop for Timer has all its outcomes", r.body["span"], str(kinds))


def orphaning(e):
    if e.op == "fetch_or":
        return e.val == I(2)
    if e.op == "cas" and e.success:
        return e.val == binop("BitOr", e.old, I(2), 64)
    return False


TAGS.update({
    "takes the queued batch once": "C02 C03 C04 C06",
    "the driver's waker is registered before the batch is taken": "C02 C06",
    "stops only when the batch is empty": "C02 C03 C04 C06",
    "an existing heap entry is noticed": "C03 C04 C05",
    "the node's old heap entry is removed, by its own slot": "C03 C04 C05",
    "no other heap entry is removed": "C02 C04 C05",
    "updating one node expires no other": "C01 C02",
    "a node with a deadline gets exactly one heap entry": "C02 C03 C05",
    "the heap entry has the node's deadline": "C01 C02 C03",
    "the heap entry refers to the node": "C01 C02 C03",
    "the heap entry has the node's generation": "C01 C02 C03",
    "the generation is read (acquire) before the deadline": "C01 C03",
    "the node remembers its heap slot": "C03 C04 C05",
    "a withdrawn node gets no heap entry": "C04 C05",
    "a withdrawn node forgets its heap slot": "C04 C05",
    "scheduling only reads the sleep's state": "C01 C02 C03",
    "scheduling does not change the requested deadline": "C01 C02 C03",
    "expiring only looks at and pops the heap": "C02 C05",
    "an entry is expired only when its deadline is at or before now": "C01 C05",
    "an expired sleep forgets its heap slot": "C03 C04 C05",
    "completion is marked only by compare-and-swap": "C01 C02 C03",
    "the sleep is completed exactly if it is still in the generation the entry was made for": "C01 C02 C03",
    "the completed sleep's task is woken after completion is marked": "C02 C03",
    "stops only when nothing is due any more": "C02 C05",
})
