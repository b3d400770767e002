"""timer::heap"""
from framework import *

HP = "timer::heap::Heap"
W = 64


def checkers(p):
    """Functions that only look at the heap and return nothing: self-checks."""
    out = []
    for b in p.bodies.values():
        if b["local"]:
            ts = [p.tname(l[0]) for l in b["locals"][: b["argc"] + 1]]
            if len(ts) == 2 and ts[0] == "()" and re.match(r"^&wasmtimer::timer::heap::Heap<", ts[1]) and "drop" not in b["path"]:
                out.append("^" + re.escape(Program.norm(b["path"])) + "$")
    return sorted(out)


def half(c):
    return binop("Shr", add(c, I(-1 & mask(W)), W), I(1), W)


def kid(p, n):
    return add(mul(p, I(2), W), I(n), W)


def item_writes(st, lo, hi, name="items"):
    out = []
    for i in range(lo, hi):
        e = st.ev[i]
        if e.k == "write" and e.loc[1] and e.loc[1][-1][0] == "i" and fld((e.loc[0], e.loc[1][:-1]), name) is not None:
            out.append((i, e.loc[1][-1][1], e.val))
    return out


def index_sets(st, lo, hi):
    """[(event, slot, position)] for writes of an occupied index entry, [(event, slot, next)] for freed ones"""
    full, free = [], []
    for i in range(lo, hi):
        e = st.ev[i]
        if e.k != "write":
            continue
        p = e.loc[1]
        if p[-2:] == (("v", "Full"), ("f", "Full.value")) or p and p[-1] == ("f", "Full.value"):
            q = p
            while q and q[-1][0] != "i":
                q = q[:-1]
            if q and fld((e.loc[0], q[:-1]), "index") is not None:
                full.append((i, q[-1][1], e.val))
        elif p and p[-1][0] == "i" and fld((e.loc[0], p[:-1]), "index") is not None:
            if variant(e.val) == "Full":
                full.append((i, p[-1][1], field(e.val, "Full.value")))
            elif variant(e.val) == "Empty":
                free.append((i, p[-1][1], field(e.val, "Empty.next")))
            else:
                full.append((i, p[-1][1], None))
    return full, free


def heads(st):
    return [i for i, e in enumerate(st.ev) if e.k == "loop"]


class Sift:
    """What is known about the sift loops of one function."""

    def __init__(self, o, r):
        self.o, self.r = o, r
        self.hole = {}      # loop id -> (symbol, direction)
        self.trips()

    def trips(self):
        o, r = self.o, self.r
        for st in r.states:
            if st.exit.k != "loopback":
                continue
            lo = last_loop(st)
            lid = st.ev[lo - 1].id
            ws = item_writes(st, lo, len(st.ev))
            full, free = index_sets(st, lo, len(st.ev))
            ok = len(ws) == 2 and not free
            if not o.path(r, st, ok and swapped(ws), "each trip of a sift exchanges two entries"):
                continue
            a, b = ws[0][1], ws[1][1]
            X = {a: ws[1][2], b: ws[0][2]}     # old entries
            got = {s: v for _, s, v in full}
            o.path(r, st, len(full) == 2 and got == {field(X[b], "1"): a, field(X[a], "1"): b}, "the positions of both exchanged entries are recorded in their index slots")
            nxt = st.exit.next
            cand = []
            for c, p in ((a, b), (b, a)):
                if not (p == half(c) or c in (kid(p, 1), kid(p, 2))):
                    continue
                for h, v in nxt.items():
                    if h == c and v == p:
                        cand.append((h, "up", c, p))
                    if h == p and v == c:
                        cand.append((h, "down", c, p))
            if not o.path(r, st, len(cand) == 1, "a sift moves the entry to its parent's or child's place and continues there"):
                continue
            h, d, c, p = cand[0]
            o.path(r, st, self.hole.setdefault(lid, (h, d)) == (h, d), "a sift keeps its direction")
            o.path(r, st, st.f.holds("lt", field(X[c], "0"), field(X[p], "0")) is True, "entries are exchanged only when the child is smaller than its parent")
            o.path(r, st, d == "down" or st.f.truth(compare("Eq", h, I(0))) is False, "the root is not sifted up")
            if d == "down":
                s = kid(p, 2) if c == kid(p, 1) else kid(p, 1)
                sx = sibling(X[c], c, s)
                n = length(r, st)
                o.path(r, st, st.f.holds("le", n, s) is True or st.f.holds("le", field(X[c], "0"), field(sx, "0")) is True, "the smaller child moves up")

    def settled(self, st, k, what):
        """At the exit of loop head k (event index), is the entry at the hole in order on the side it moved to?"""
        o, r = self.o, self.r
        lid = st.ev[k].id
        if not o.path(r, st, lid in self.hole, "a sift loop makes progress"):
            return None
        h, d = self.hole[lid]
        X = contents(r, st, h)
        if d == "up":
            p = half(h)
            okk = st.f.const(h) == 0 or st.f.truth(compare("Eq", h, I(0))) is False and st.f.holds("le", field(self.at(st, p), "0"), field(X, "0")) is True
            o.path(r, st, okk, what + " moves up until its parent is not larger, or it is the root")
        else:
            n = length(r, st)
            for j in (1, 2):
                c = kid(h, j)
                okk = st.f.holds("le", n, c) is True or st.f.holds("le", field(X, "0"), field(self.at(st, c), "0")) is True
                if j == 2:
                    okk = okk or st.f.holds("le", n, kid(h, 1)) is True
                o.path(r, st, okk, what + " moves down until no child is smaller")
        return d

    def at(self, st, i):
        return contents(self.r, st, i)


def swapped(ws):
    (_, a, va), (_, b, vb) = ws
    return a != b and va[0] == vb[0] == "ix" and va[1] == vb[1] and va[2] == b and vb[2] == a


def sibling(x, c, s):
    return ("ix", x[1], s)


def items_loc(r):
    return (("P", r.params[0]), (("f", "items"),))


def contents(r, st, i):
    l = items_loc(r)
    return r.e.read(st, (l[0], l[1] + (("i", i),)))


def length(r, st):
    return r.e.vec_len(st, items_loc(r))


def checks_consistent(o, r, st, ck):
    """self-checks only look at a heap that is consistent: before anything changed or after everything has"""
    for i in (i for rx in ck for i in calls(st, rx)):
        wr = [j for j, e in enumerate(st.ev) if e.k == "write" and e.loc[0] == ("P", r.params[0]) and (("f", "items") in e.loc[1] or ("f", "index") in e.loc[1])]
        done = st.exit.k == "return" and all(j < i for j in heads(st))
        o.path(r, st, all(j > i for j in wr) and not any(j < i for j in heads(st)) or done and all(j < i for j in wr), "the heap is checked only while its entries are in place", st.ev[i])


def replaced(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(replaced(x, m) for x in t)
    return t


COUNT = r"^<std::iter::Filter<.*>::count$|iter::Iterator::count$"


def counts_full(o, st, t):
    """t may be the number of occupied index slots; None: it is not known how t was counted"""
    e = next((e for e in st.ev if e.k == "call" and e.ret == t and e.decl.endswith("Iterator::count")), None)
    if e is None:
        return None if t[0] == "s" or t[0] == "lin" else False
    f = field(e.args[0], "predicate")
    if f[0] != "ag" or not f[1].startswith("closure:"):
        return None
    b = [b for b in o.p.bodies.values() if b["local"] and b["closure"] and Program.norm(b["path"]) in Program.norm(f[1])]
    if len({x["path"] for x in b}) != 1:
        return None
    c = o.run(min(b, key=lambda x: (x["id"] not in o.p.roots, x["id"])))
    for st in c.states:
        ty = [(t, v) for t, v in st.f.eq.items() if t[0] == "disc"]
        if st.exit.k != "return" or len(ty) != 1 or st.f.const(st.ret) is None:
            return False
        t, v = ty[0]
        name = {int(x["d"]): x["n"] for x in o.p.types[c.e.disc_ty[t]]["vs"]}.get(v)
        if (name == "Full") != bool(st.f.const(st.ret)):
            return False
    return True


@rule("heap.check", "C05", "The heap's self-checks object only to a heap whose index or order is broken, and look at it only while its entries are in place")
def check(o):
    names = checkers(o.p)
    for b in o.p.bodies.values():
        if not (b["local"] and b["id"] in o.p.roots and any(re.search(n, Program.norm(b["path"])) for n in names)):
            continue
        r = o.run(b, opaque=[COUNT])
        H = ("*", r.params[0])
        n, il = ("f", ("f", H, "items"), "$len"), ("f", ("f", H, "index"), "$len")
        syms = {}
        for s, v in r.e.loopvals.items():
            if v == {I(0), binop("Add", s, I(1), W)}:
                lid = next((k for k, x in r.e.loopinfo.items() if s in x["syms"].values()), None)
                syms.setdefault(lid, []).append(s)
        same = {s: l[0] for l in syms.values() for s in l}
        for st in r.states:
            o.path(r, st, not [e for e in st.ev if e.k == "write" and e.loc[0] == ("P", r.params[0])], "a self-check changes nothing")
            if st.exit.k != "panic":
                continue
            fs = [(replaced(a, same), op, replaced(c, same)) for a, op, c in ((a, op, c) for a, c, op in st.f.ord)]
            eq = {replaced(t, same): v for t, v in st.f.eq.items()}
            inb = lambda i: (i, "lt", n) in fs
            nz = lambda i: any(st.f.truth(compare("Eq", u, I(0))) is False or st.f.holds("lt", I(0), u) is True for u, v in same.items() if v == i) or any(is_i(k) and k[1] and r.e.loopvals[i] == {k, binop("Add", i, I(1), W)} for k in r.e.loopvals.get(i, ()))
            pos = lambda t: t[2] if t[0] == "ix" and t[1] == ("f", H, "items") else None
            item = lambda t: pos(t[1]) if t[0] == "f" and t[2] == "0" else None
            slot = lambda t: pos(t[2][1]) if t[0] == "ix" and t[1] == ("f", H, "index") and t[2][0] == "f" and t[2][2] == "1" else None
            bad = False
            for a, op, c in fs:
                i, j = item(a), item(c)
                if op == "lt" and i is not None and j is not None:
                    # a smaller entry below a larger one
                    bad = bad or i in (kid(j, 1), kid(j, 2)) and inb(i) and inb(j) or j == half(i) and nz(i) and inb(i)
                if op == "ne" and {a, c} & {n} and a != c:
                    x = c if a == n else a
                    bad = bad or counts_full(o, st, x) is not False
                if op == "ne":
                    for x, y in ((a, c), (c, a)):
                        if x[0] == "f" and x[2] == "Full.value" and slot(x[1]) is not None:
                            bad = bad or slot(x[1]) == y
                if op == "le" and a == il and c[0] == "f" and c[2] == "1" and pos(c[1]) is not None:
                    bad = True
                if op == "le" and a == n and any(c == half(i) and nz(i) for i in r.e.loopvals if inb(i)):
                    bad = True      # cannot be
            for t, v in eq.items():
                if t[0] == "disc" and slot(t[1]) is not None:
                    ty = o.p.types[r.e.disc_ty.get(next((u for u in st.f.eq if replaced(u, same) == t), t), -1)]
                    bad = bad or {int(x["d"]): x["n"] for x in ty.get("vs", [])}.get(v) == "Empty"
            o.path(r, st, bad, "it objects only to a broken heap")


@rule("heap.push", "C05 C02", "Heap::push: takes an index slot off the free list (or a fresh one), stores the entry under it, sifts it up; the slot returned is the entry's")
def push(o):
    ck = checkers(o.p)
    r = o.run(o.p.method(HP, "push"), opaque=ck)
    s = Sift(o, r)
    self_, t = r.params
    H = ("*", self_)
    ni, il, n = ("f", H, "next_index"), ("f", ("f", H, "index"), "$len"), ("f", ("f", H, "items"), "$len")
    kinds = set()
    for st in r.states:
        checks_consistent(o, r, st, ck)
        hd = heads(st)
        lo = hd[0] if hd else len(st.ev)
        full, free = index_sets(st, 0, lo)
        if st.exit.k == "panic":
            entry_panic(o, r, st, ("ix", ("f", H, "index"), ni))
            continue
        if st.exit.k != "return":
            continue
        # the head of the free list never lies beyond the slots there are: it starts there, and becomes an old head or a freed slot
        fresh = True if st.f.holds("le", il, ni) is True else False if st.f.holds("lt", ni, il) is True else st.f.holds("eq", ni, il)
        slot = il if fresh is True else ni
        kinds.add(fresh)
        o.path(r, st, fresh is not None, "whether the free list is exhausted is decided")
        o.path(r, st, not free and len(full) == 1 and full[0][1] in (slot, il if fresh is True else ni, ni) and full[0][2] == n, "the new entry's index slot records the position it is put at")
        fin = r.e.read(st, (("P", self_), (("f", "next_index"),)))
        want = add(ni, I(1), W) if fresh is True else ("f", ("ix", ("f", H, "index"), ni), "Empty.next")
        o.path(r, st, fin == want or fresh is True and fin == add(il, I(1), W), "the slot is taken off the free list")
        ws = item_writes(st, 0, lo)
        okk = len(ws) == 1 and ws[0][1] == n and field(ws[0][2], "0") == t and field(ws[0][2], "1") in (slot, ni)
        o.path(r, st, okk, "the entry is appended with its index slot")
        o.path(r, st, field(st.ret, "idx") in (slot, ni), "the slot returned is the entry's")
        o.path(r, st, length(r, st) == add(n, I(1), W), "exactly one entry is added")
        if o.path(r, st, len(hd) == 1, "the new entry is sifted"):
            d = s.settled(st, hd[0], "a new entry")
            o.path(r, st, d == "up" and st.ev[hd[0]].init.get(s.hole[st.ev[hd[0]].id][0]) == n, "the new entry is sifted up from where it was put")
    o.need(kinds == {True, False}, "Heap::push has both outcomes", r.body["span"], str(kinds))


def entry_panic(o, r, st, free):
    """A panic is acceptable only for an index entry whose occupancy contradicts the index: the head of the free list occupied, or any other entry free."""
    bad = False
    for t, v in st.f.eq.items():
        ty = o.p.types[r.e.disc_ty[t]] if t[0] == "disc" and t in r.e.disc_ty else {}
        if ty.get("path", "").endswith("heap::SlabSlot"):
            name = {int(x["d"]): x["n"] for x in ty["vs"]}.get(v)
            bad = bad or name == ("Full" if t[1] == free else "Empty")
    o.path(r, st, bad, "panics at most for an index slot whose occupancy contradicts the index (excluded by these rules)")


@rule("heap.remove", "C05 C04", "Heap::remove: takes out exactly the slot's entry, frees the slot, keeps every other entry's index right and restores heap order from the hole")
def remove(o):
    ck = checkers(o.p)
    r = o.run(o.p.method(HP, "remove"), opaque=ck)
    s = Sift(o, r)
    self_, slot = r.params
    H = ("*", self_)
    k = field(slot, "idx")
    ni, n = ("f", H, "next_index"), ("f", ("f", H, "items"), "$len")
    pos = ("f", ("ix", ("f", H, "index"), k), "Full.value")
    gone = ("ix", ("f", H, "items"), pos)
    lastp = add(n, I(-1 & mask(W)), W)
    last = ("ix", ("f", H, "items"), lastp)
    kinds = set()
    for st in r.states:
        checks_consistent(o, r, st, ck)
        if st.exit.k == "panic":
            entry_panic(o, r, st, None)
            continue
        hd = heads(st)
        lo = hd[0] if hd else len(st.ev)
        full, free = index_sets(st, 0, lo)
        o.path(r, st, len(free) == 1 and free[0][1:] == (k, ni) and not any(f[1] == k and f[0] > free[0][0] for f in full), "the slot is freed and linked to the free list")
        if st.exit.k != "return":
            continue
        o.path(r, st, r.e.read(st, (("P", self_), (("f", "next_index"),))) == k, "the freed slot heads the free list")
        o.path(r, st, st.ret == field(gone, "0") or st.f.holds("eq", pos, lastp) is True and st.ret == field(last, "0"), "the entry taken out is the slot's")
        o.path(r, st, length(r, st) == lastp, "exactly one entry is taken out")
        was_last = st.f.holds("le", lastp, pos) or (True if st.f.const(lastp) == 0 else None)
        kinds.add(bool(was_last))
        ws = [w for w in item_writes(st, 0, lo) if w[1] != lastp]
        if was_last is True:
            o.path(r, st, not hd and not full, "taking out the last entry moves nothing")
            continue
        if not o.path(r, st, st.f.holds("lt", pos, lastp) is True, "whether the last entry has to move is decided"):
            continue
        mv = [w for w in ws if w[1] == pos and w[2] == last]
        o.path(r, st, len(mv) == len(ws) == 1, "the last entry fills the gap")
        o.path(r, st, len(full) == 1 and full[0][1:] == (field(last, "1"), pos), "the moved entry's index slot records its new position")
        dirs = [s.settled(st, i, "the moved entry") if j == len(hd) - 1 else (s.hole.get(st.ev[i].id) or (None, None))[1] for j, i in enumerate(hd)]
        a, b = field(last, "0"), field(gone, "0")
        okk = dirs == ["up"] and st.f.holds("le", a, b) is True or dirs == ["down"] and st.f.holds("le", b, a) is True or sorted(map(str, dirs)) == ["down", "up"]
        o.path(r, st, okk, "the moved entry is sifted towards the side it may be out of order with")
        for j, i in enumerate(hd):
            h = s.hole.get(st.ev[i].id)
            if h:
                start = st.ev[i].init.get(h[0])
                o.path(r, st, start == pos or j and start == (s.hole.get(st.ev[hd[j - 1]].id) or (None,))[0], "sifting starts where the gap was filled")
    o.need(kinds == {True, False}, "Heap::remove has both outcomes", r.body["span"], str(kinds))


@rule("heap.peek", "C05 C02", "Heap::peek shows the root, Heap::pop removes the root's slot; none exactly for an empty heap")
def peek(o):
    ck = checkers(o.p)
    RM = r"heap::Heap::<.*>::remove$"
    for name in ("peek", "pop"):
        r = o.run(o.p.method(HP, name), opaque=ck + [RM])
        H = ("*", r.params[0])
        items = ("f", H, "items")
        n = ("f", items, "$len")
        root = ("ix", items, I(0))
        kinds = set()
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", "does not panic"):
                continue
            v = variant(st.ret)
            kinds.add(v)
            rm = calls(st, RM)
            o.path(r, st, not find(st, "write"), "looking at the root changes nothing itself")
            if v == "None":
                o.path(r, st, st.f.const(n) == 0 and not rm, "none only for an empty heap")
                continue
            o.path(r, st, st.f.truth(compare("Eq", n, I(0))) is not True, "an entry only for a heap that is not empty")
            if name == "peek":
                x = field(st.ret, "Some.0")
                o.path(r, st, not rm and x == ("ref", (("P", r.params[0]), (("f", "items"), ("i", I(0)), ("f", "0")))), "the entry shown is the root")
            else:
                okk = len(rm) == 1 and field(st.ev[rm[0]].args[1], "idx") == field(root, "1") and field(st.ret, "Some.0") == st.ev[rm[0]].ret
                o.path(r, st, okk, "the entry popped is the root, removed by its slot")
        o.need(kinds == {"None", "Some"}, "Heap::%s has both outcomes" % name, r.body["span"], str(kinds))
    r = o.run(o.p.method(HP, "new"))
    for st in r.states:
        okk = st.exit.k == "return" and field(st.ret, "next_index") == I(0)
        for f in ("items", "index"):
            okk = okk and field(field(st.ret, f), "$len") == I(0)
        o.path(r, st, okk, "a new heap is empty")
