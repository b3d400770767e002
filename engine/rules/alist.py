"""timer::arc_list"""
from framework import *

AL = "timer::arc_list::ArcList"
EMPTY = I(0)
RF = "release/acquire"


def the_list(ev):
    return ev.k == "atomic" and ev.ty != "usize" and ev.ty != "bool" and fld(ev.loc, "list") is not None


def sealed_value(o):
    r = o.run(o.p.method(AL, "take_and_seal"))
    vals = set()
    for st in r.rets():
        for e in st.ev:
            if the_list(e) and (e.op == "swap" or e.op == "cas" and e.success):
                vals.add(e.val)
    if len(vals) != 1:
        raise AnalysisError("take_and_seal: the seal value")
    v = vals.pop()
    good = is_i(v) and v[1] != 0 or v[0] == "app" and v[1] == "ptr_add" and v[2] == EMPTY and is_i(v[3]) and v[3][1] != 0
    o.need(good, "the seal differs from the empty list", r.body["span"], show(v))
    return v


def left(st, lloc):
    """what a path leaves in the (exclusively borrowed) list head"""
    for e in reversed(st.ev):
        if e.k == "write" and e.loc == lloc or e.k == "atomic" and e.op in ("store", "swap") and e.loc == (lloc[0], lloc[1][:-1]):
            return e.val
    return None


def balance(st, lo=0):
    """references created less references dropped on a path"""
    ev = st.ev[lo:]
    return sum(1 for e in ev if e.k == "arc_clone") - sum(1 for e in ev if e.k == "drop" and "Arc<" in e.ty)


@rule("list.push", "C06 C02", "ArcList::push: at most once per queued period (enqueued flag), never onto a sealed list, linking to exactly the head it replaces, owning exactly one reference", also="C07")
def push(o):
    seal = sealed_value(o)
    r = o.run(o.p.method(AL, "push"))
    self_, data = r.params
    node = ("*", data)
    kinds = set()
    for st in r.states:
        sw = [i for i, e in enumerate(st.ev) if e.k == "atomic" and fld(e.loc, "enqueued") is not None]
        li = [i for i, e in enumerate(st.ev) if the_list(e)]
        if not o.path(r, st, st.exit.k in ("return", "loopback") and bool(sw), "handing over claims the node's queued flag and does not panic"):
            continue
        f = st.ev[sw[0]]
        okf = f.op == "swap" and f.val == TRUE and rel(f.ords[0]) or f.op == "cas" and f.old == FALSE and f.val == TRUE and not f.d.get("weak") and rel(f.ords[0])
        o.path(r, st, okf and f.loc[0][0] == "P" and (not li or sw[0] < li[0]), "the queued flag is claimed atomically (release) before the list is touched", f)
        was = st.f.const(f.ret) if f.op == "swap" else (0 if f.success else 1)
        net = balance(st)
        cas = [st.ev[i] for i in li if st.ev[i].op == "cas" and st.ev[i].success]
        o.path(r, st, all(st.ev[i].op in ("load", "cas") for i in li), "the list head is only read or compare-and-swapped")
        if st.exit.k == "loopback":
            o.path(r, st, not cas, "a successful hand-over ends")
            o.path(r, st, balance(st, last_loop(st)) == 0, "a retry keeps or loses no reference")
            continue
        v = variant(st.ret)
        if was == 1:
            kinds.add("queued already")
            o.path(r, st, v == "Ok" and not cas and net == 0, "a node that is queued already is left alone, and this is success")
            continue
        if not o.path(r, st, was == 0, "the queued flag decides"):
            continue
        if v == "Ok":
            kinds.add("pushed")
            if not o.path(r, st, len(cas) == 1, "success means the node was linked exactly once"):
                continue
            e = cas[0]
            nx = [x for x in st.ev[:st.ev.index(e)] if x.k == "atomic" and fld(x.loc, "next") is not None and x.op in ("store", "swap")]
            o.path(r, st, atomic_reading(r, st, e.old, e.loc) and e.loc[0] == ("P", self_), "the head replaced is one that was read", e)
            o.path(r, st, e.val == node and rel(e.ords[0]), "the new head is the node, published with release ordering", e)
            o.path(r, st, bool(nx) and nx[-1].val == e.old and fld(nx[-1].loc, "next")[0] == ("P", node), "the node links to the head it replaces", e)
            o.path(r, st, st.f.holds("eq", e.old, seal) is False, "nothing is pushed onto a sealed list", e)
            o.path(r, st, net == 1, "the list owns exactly one new reference", e)
            after = [x for x in st.ev[st.ev.index(e) + 1:] if x.k == "atomic"]
            o.path(r, st, not after, "the node is not touched after it was published", e)
        else:
            kinds.add("refused")
            o.path(r, st, v == "Err" and not cas and net == 0, "a refused node is not linked and no reference is kept or lost")
            sealed = any(st.f.holds("eq", t, seal) is True and atomic_reading(r, st, t, (("P", self_), (("f", "list"),))) for a, b, _ in st.f.ord for t in (a, b))
            o.path(r, st, sealed, "refused only when the list was read as sealed")
    o.need(kinds == {"queued already", "pushed", "refused"}, "ArcList::push has all its outcomes", r.body["span"], str(kinds))


@rule("list.take", "C06 C07", "ArcList::take empties the list in one step and hands over exactly what it removed; a sealed list stays sealed; take_and_seal seals in one step")
def take(o):
    seal = sealed_value(o)
    for name, new in (("take", EMPTY), ("take_and_seal", seal)):
        r = o.run(o.p.method(AL, name))
        loc = (("P", r.params[0]), (("f", "list"),))
        n = 0
        for st in r.states:
            ops = [e for e in st.ev if the_list(e)]
            mut = [e for e in ops if e.op not in ("load",) and not (e.op == "cas" and not e.success)]
            if st.exit.k != "return":
                o.path(r, st, st.exit.k == "loopback" and not mut, "retries only without having taken anything")
                continue
            got = field(field(st.ret, "list"), "$v")
            o.path(r, st, all(e.loc == loc for e in ops), "acts on its own list")
            if mut:
                n += 1
                e = mut[0]
                if e.op == "cas":
                    good = e.val == new and got == e.old and atomic_reading(r, st, e.old, loc) and (name != "take" or st.f.holds("eq", e.old, seal) is False)
                else:
                    good = e.op == "swap" and e.val == new and got == e.ret and name == "take_and_seal"
                o.path(r, st, len(mut) == 1 and good and acq(e.ords[0]), "what is handed over is what was removed (acquire), and the list is left %s" % ("empty" if name == "take" else "sealed"), e)
            else:
                o.path(r, st, name == "take" and (st.f.holds("eq", got, seal) is True or st.f.const(got) == 0), "nothing is removed only from a sealed (or empty) list")
        o.need(n >= 1 and not r.panics(), "%s removes the list" % name, r.body["span"])


@rule("list.pop", "C06 C02", "ArcList::pop yields every linked node once: next is read before the queued flag is cleared, the reference is taken over exactly once; dropping a list drains it", also="C03 C04")
def pop(o):
    seal = sealed_value(o)
    r = o.run(o.p.method(AL, "pop"))
    lloc = (("P", r.params[0]), (("f", "list"), ("f", "$v")))
    head = ("f", ("f", ("*", r.params[0]), "list"), "$v")
    kinds = set()
    for st in r.states:
        raws = [e for e in st.ev if e.k == "from_raw"]
        fl = [i for i, e in enumerate(st.ev) if e.k == "atomic" and fld(e.loc, "enqueued") is not None]
        nx = [i for i, e in enumerate(st.ev) if e.k == "atomic" and fld(e.loc, "next") is not None]
        if st.exit.k == "panic":
            o.path(r, st, bool(fl) and st.ev[fl[0]].op == "swap" and st.f.const(st.ev[fl[0]].ret) == 0, "panics at most for a linked node whose queued flag was clear (excluded by push)")
            continue
        v = variant(st.ret)
        if v == "None":
            kinds.add("none")
            o.path(r, st, not raws and (st.f.const(head) == 0 or st.f.holds("eq", head, seal) is True) and not find(st, "write"), "none only for an empty or sealed list, which stays as it is")
            continue
        kinds.add("some")
        o.path(r, st, v == "Some" and field(st.ret, "Some.0") == head and len(raws) == 1 and raws[0].val == head, "the head is yielded, its reference taken over once")
        o.path(r, st, st.f.truth(compare("Eq", head, EMPTY)) is False and st.f.holds("eq", head, seal) is False, "only a linked node is yielded")
        o.path(r, st, not [e for e in st.ev if e.k in ("arc_clone", "into_raw") or e.k == "drop" and "Arc<" in e.ty], "no other reference is made or dropped")
        if not o.path(r, st, len(fl) == 1 and len(nx) == 1, "reads next and clears the queued flag once"):
            continue
        f, n = st.ev[fl[0]], st.ev[nx[0]]
        o.path(r, st, n.op == "load" and fld(n.loc, "next")[0] == ("P", head) and left(st, lloc) == n.ret, "the rest of the list starts at the head's successor", n)
        o.path(r, st, fld(f.loc, "enqueued")[0] == ("P", head) and f.d.get("val") == FALSE and (f.op == "swap" and acq(f.ords[0]) or f.op == "store" and f.ords[0] == "SeqCst"), "the queued flag of the yielded node is cleared (acquire)", f)
        o.path(r, st, nx[0] < fl[0], "next is read before the queued flag is cleared (after it a concurrent hand-over may relink the node)", f)
    o.need(kinds == {"none", "some"}, "ArcList::pop has both outcomes", r.body["span"])
    r = o.run(o.p.method(AL, "drop", "Drop"), opaque=[LIST])
    for st in r.states:
        if st.exit.k == "return":
            pc = calls(st, LIST)
            o.path(r, st, bool(pc) and st.ev[pc[-1]].path.endswith("pop") and st.f.const(("disc", st.ev[pc[-1]].ret)) == 0, "dropping a list releases every node in it")
            o.path(r, st, not find(st, "write"), "dropping a list drains it by popping")
        else:
            o.path(r, st, st.exit.k == "loopback", "dropping a list does not panic")


@rule("list.new", "C06", "a new list is empty; a new node is unlinked and not queued; a new timer has both, and an empty heap")
def new(o):
    r = o.run(o.p.method(AL, "new"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and field(field(st.ret, "list"), "$v") == EMPTY, "a new list is empty")
    r = o.run(o.p.method("timer::arc_list::Node", "new"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and field(field(st.ret, "enqueued"), "$v") == FALSE and field(st.ret, "data") == r.params[0], "a new node is not queued and holds its data")
    r = o.run(o.p.method("timer::arc_list::Node", "deref", "Deref"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and st.ret == ("ref", (("P", r.params[0]), (("f", "data"),))), "a node gives access to its data")
    r = o.run(o.p.method("timer::Timer", "new"))
    for st in r.states:
        inner = field(st.ret, "inner") if st.ret else UNIT
        d = r.e.read(st, r.e.deref(st, inner)) if inner[0] == "ref" else UNIT
        o.path(r, st, st.exit.k == "return" and field(field(field(d, "list"), "list"), "$v") == EMPTY, "a new timer has an empty hand-over list")
    r = o.run(o.p.method("timer::Timer", "handle"))
    for st in r.states:
        inner = field(st.ret, "inner") if st.ret else UNIT
        src = ("f", ("*", r.params[0]), "inner")
        o.path(r, st, st.exit.k == "return" and inner[0] == "app" and inner[1] == "weak" and inner[2] == src or inner == ("app", "downgrade", src), "a handle refers to the timer it was made from")


TAGS.update({
    "nothing is pushed onto a sealed list": "C06 C07",
    "success means the node was linked exactly once": "C02 C06 C07",
    "a refused node is not linked and no reference is kept or lost": "C06 C07",
    "refused only when the list was read as sealed": "C02 C06 C07",
    "the queued flag of the yielded node is cleared (acquire)": "C02 C03 C04 C06",
})
