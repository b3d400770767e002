"""tokio_util::delay_queue: storage, intrusive lists and the queue itself"""
from framework import *

DQ = "tokio_util::delay_queue"
SL = DQ + "::SlabStorage"
ST = DQ + "::Stack"
Q = DQ + "::DelayQueue"


def P(x):
    return (("P", x), ())


def sub(loc, *names):
    return (loc[0], loc[1] + tuple(("f", n) for n in names))


def keyed(st, loc, *kinds):
    return [i for i, e in enumerate(st.ev) if e.k in (kinds or ("kput", "kdel", "kclear", "kmix")) and e.loc == loc]


def has(st, loc, k=None):
    """What the path knows about presence: {key: 0/1} for lookups in loc whose result is decided."""
    out = {}
    for e in st.ev:
        if e.k == "klook" and e.loc == loc:
            v = e.res[1] if is_i(e.res) else st.f.const(e.res)
            if v is not None:
                out.setdefault(e.key, v)
    return out


class Store:
    """A SlabStorage reached at `loc` on one path."""

    def __init__(self, r, st, loc):
        self.r, self.st, self.loc = r, st, loc
        self.slab, self.map, self.flag = sub(loc, "inner"), sub(loc, "key_map"), sub(loc, "compact_called")
        t = r.e.initial(loc[0])
        for s in loc[1]:
            t = field(t, s[1])
        self.flag0 = field(t, "compact_called")
        self.map0 = field(t, "key_map")

    def compacted(self):
        """1, 0 or None.  The map is empty unless the storage was compacted."""
        v = self.st.f.const(self.flag0)
        if v is None and 1 in has(self.st, self.map).values() and not keyed(self.st, self.map, "kput"):
            return 1
        if v is None and any(e.k == "klook" and e.loc == self.map and self.st.f.const(e.res) == 1 for e in self.st.ev):
            return 1
        return v

    def feasible(self):
        """Paths that find a key in the map of a storage never compacted do not exist."""
        if self.st.f.const(self.flag0) != 0:
            return True
        first = next((i for i, e in enumerate(self.st.ev) if e.k == "kput" and e.loc == self.map), len(self.st.ev))
        return not any(e.k == "klook" and e.loc == self.map and self.st.f.const(e.res) == 1 for e in self.st.ev[:first])


def key_terms(r, i):
    """(the key, the map's value index) for parameter i, a Key or a reference to one"""
    x = r.params[i]
    ti = r.body["locals"][i + 1][0]
    return ("*", x) if r.e.p.types[ti].get("k") == "ref" else x


def located(o, r, st, s, k, what):
    """(found, slab index) the storage must use for key k on this path"""
    c = s.compacted()
    if not o.path(r, st, c is not None, what + " takes account of whether the storage was compacted"):
        return None
    if c == 0:
        return True, field(k, "index")
    h = has(st, s.map)
    if not o.path(r, st, k in h, what + " looks the key up once the storage was compacted"):
        return None
    return bool(h[k]), field(elem(s.map0, k), "index")


def subterms(t):
    out = [t]
    for x in t:
        if isinstance(x, tuple):
            out += subterms(x)
    return out


@rule("slab.insert", "C21 C22", "A stored item is found under the returned key alone: the key was free, and it is the slot's own index or is mapped to the slot", ("default",))
def slab_insert(o):
    r = o.run(o.p.method(SL, "insert"))
    seen = 0
    for st in r.states:
        s = Store(r, st, P(r.params[0]))
        if not s.feasible():
            continue
        if st.exit.k == "loopback":
            o.path(r, st, not keyed(st, s.map) and len(keyed(st, s.slab)) <= 1, "nothing is mapped while a free key is searched for")
            x = [field(e.key, "index") for e in st.ev[last_loop(st):] if e.k == "klook" and e.loc == s.map]
            o.path(r, st, not x or any(t in st.exit.next and st.exit.next[t] != t for t in subterms(x[-1])), "the search for a free key moves on")
        o.path(r, st, st.exit.k != "panic", "storing an item never fails")
        if st.exit.k != "return":
            continue
        seen += 1
        ins = keyed(st, s.slab)
        if not o.path(r, st, len(ins) == 1 and st.ev[ins[0]].k == "kput" and st.ev[ins[0]].val == r.params[1], "the item is stored exactly once, unchanged"):
            continue
        slot = st.ev[ins[0]].key
        K = st.ret
        ki = field(K, "index")
        puts = keyed(st, s.map)
        c = s.compacted()
        if c != 0:
            okk = len(puts) == 1 and st.ev[puts[0]].k == "kput"
            if o.path(r, st, okk, "after a compaction the new key is mapped"):
                e = st.ev[puts[0]]
                o.path(r, st, field(e.key, "index") == ki and field(e.val, "index") == slot, "the returned key is the one mapped to the item's slot")
                o.path(r, st, e.new, "the returned key is not that of another live item")
        if c != 1:
            o.path(r, st, not puts and ki == slot, "before any compaction the key is the item's slot")
        w = [e for e in st.ev if e.k == "write" and e.loc == s.flag]
        o.path(r, st, not w, "insertion does not change the compaction state")
    o.need(seen >= 2, "%s: insertion returns" % r.path)


@rule("slab.remove", "C21 C22", "Removal takes out the item the key refers to, forgets the key, and panics for a key that refers to none", ("default",))
def slab_remove(o):
    r = o.run(o.p.method(SL, "remove"))
    k = key_terms(r, 1)
    seen = 0
    for st in r.states:
        s = Store(r, st, P(r.params[0]))
        if not s.feasible():
            continue
        d, m = keyed(st, s.slab), keyed(st, s.map)
        if st.exit.k == "panic":
            h = has(st, s.map)
            o.path(r, st, (s.compacted() == 1 and h.get(k) == 0) or 0 in has(st, s.slab).values(), "removal panics only for a key that refers to no item")
            o.path(r, st, not d, "nothing is removed before the panic")
            continue
        if st.exit.k != "return":
            continue
        seen += 1
        l = located(o, r, st, s, k, "removal")
        if l is None:
            continue
        o.path(r, st, l[0], "a key that is not mapped is refused")
        okk = len(d) == 1 and st.ev[d[0]].k == "kdel" and st.ev[d[0]].key == l[1]
        if o.path(r, st, okk, "exactly the key's own item is taken out"):
            o.path(r, st, st.ret == st.ev[d[0]].val, "the item taken out is returned")
        if s.compacted() == 1:
            o.path(r, st, len(m) == 1 and st.ev[m[0]].k == "kdel" and st.ev[m[0]].key == k, "the key's mapping is removed with its item")
        else:
            o.path(r, st, not m, "no mapping is touched")
        o.path(r, st, not [e for e in st.ev if e.k == "write" and e.loc == s.flag], "removal does not change the compaction state")
    o.need(seen >= 2, "%s: removal returns" % r.path)


@rule("slab.lookup", "C21 C22", "A key leads to its own item, wherever compaction has moved it, and to nothing once its item has left", ("default",))
def slab_lookup(o):
    for name, tr in (("contains", None), ("index", "Index"), ("index_mut", "IndexMut")):
        b = None
        if tr is None:
            b = o.p.method(SL, name)
        else:
            c = [x for x in o.p.bodies.values() if x["local"] and x["name"] == name and x["self"] and Program.norm(x["self"]) == SL and x["trait"] and not x["closure"]]
            c = [x for x in c if x["id"] in o.p.roots]
            if not o.need(len(c) == 1, "SlabStorage implements %s" % tr):
                continue
            b = c[0]
        r = o.run(b)
        k = key_terms(r, 1)
        n = 0
        for st in r.states:
            s = Store(r, st, P(r.params[0]))
            if not s.feasible():
                continue
            o.path(r, st, not keyed(st, s.slab) and not keyed(st, s.map) and not [e for e in st.ev if e.k == "write"], "a look-up changes nothing")
            if st.exit.k == "panic":
                o.path(r, st, tr is not None and (s.compacted() == 1 and has(st, s.map).get(k) == 0 or 0 in has(st, s.slab).values()), "a look-up panics only for a key that refers to no item")
                continue
            if st.exit.k != "return":
                continue
            n += 1
            l = located(o, r, st, s, k, "the look-up")
            if l is None:
                continue
            if tr:
                o.path(r, st, l[0] and st.ret == ("ref", (s.slab[0], s.slab[1] + (("i", l[1]),))), "the reference is to the key's own item")
            elif not l[0]:
                o.path(r, st, st.ret == I(0), "a key that is not mapped is not contained")
            else:
                o.path(r, st, any(e.k == "klook" and e.loc == s.slab and e.key == l[1] and (e.res == st.ret or is_i(st.ret) and st.f.const(e.res) == st.ret[1]) for e in st.ev), "containment is that of the key's own slot")
        o.need(n >= 2, "%s: returns" % r.path)


@rule("slab.compact", "C21 C22", "Compaction maps every live key before the first move, follows every move exactly, and marks the storage as compacted", ("default",))
def slab_compact(o):
    r = o.run(o.p.method(SL, "compact"))
    if not o.need(all(st.exit.k != "panic" for st in r.states), "%s: never panics" % r.path):
        return
    loops = 0
    inplace = False     # mappings follow each move when it happens
    for st in r.states:
        s = Store(r, st, P(r.params[0]))
        if not s.feasible():
            continue
        mix = keyed(st, s.slab, "kmix")
        now = bool(mix) and [v for _, v in st.ev[mix[0]].fun[3]] == [("ref", s.map)]
        inplace |= now
        lo = last_loop(st)
        tail = st.ev[lo:]
        each = next((e for e in tail if e.k == "each"), None)
        if st.exit.k == "loopback":
            if not o.path(r, st, each is not None, "loops walk the slab or the key map"):
                continue
            loops += 1
            if each.loc == s.slab:
                o.path(r, st, not mix and s.compacted() == 0, "keys are registered before the slab is compacted, for a storage not compacted yet")
                p = [e for e in tail if e.k in ("kput", "kdel", "kclear") and e.loc == s.map]
                o.path(r, st, len(p) == 1 and p[0].k == "kput" and field(p[0].key, "index") == each.key == field(p[0].val, "index"), "every live item's key is mapped to its present slot")
            elif each.loc == s.map:
                if not o.path(r, st, len(mix) == 1, "mappings are updated after the slab was compacted"):
                    continue
                moves = captured_map(st, st.ev[mix[0]])
                looks = [e for e in tail if e.k == "klook" and e.loc != s.map]
                if not o.path(r, st, len(looks) == 1 and looks[0].loc == moves and same_index(looks[0].key, each, s), "each mapping is looked up among the recorded moves"):
                    continue
                ws = [e for e in tail if e.k == "write" and e.loc[1][: len(s.map[1])] == s.map[1] and e.loc[0] == s.map[0]]
                if st.f.const(looks[0].res) == 1:
                    okk = len(ws) == 1 and ws[0].loc[1][len(s.map[1])] == ("i", each.key) and moved_to(ws[0], s, looks[0].key)
                    o.path(r, st, okk, "a moved item's mapping becomes the slot it moved to")
                else:
                    o.path(r, st, all(w.loc[1][len(s.map[1])] == ("i", each.key) and rewritten(w, s, each) for w in ws), "the mapping of an item that was not moved is kept")
            else:
                o.path(r, st, False, "loops walk the slab or the key map")
        elif st.exit.k == "return":
            if not o.path(r, st, len(mix) == 1, "the slab is compacted once"):
                continue
            i = mix[0]
            ends = [j for j, e in enumerate(st.ev) if e.k == "each_end"]
            o.path(r, st, now or any(j > i and st.ev[j].loc == s.map for j in ends), "every mapping is brought up to date after the compaction")
            if s.compacted() != 1:
                o.path(r, st, any(j < i and st.ev[j].loc == s.slab for j in ends), "all live keys are mapped before the first move")
            o.path(r, st, final(st, s.flag) == I(1) or (s.compacted() == 1 and final(st, s.flag) is None), "the storage is marked as compacted")
            o.path(r, st, not keyed(st, s.map, "kdel", "kclear") and not keyed(st, s.slab, "kput", "kdel", "kclear"), "compaction drops no key and no item")
    o.need(loops >= (1 if inplace else 2), "%s: registers and updates mappings" % r.path)
    # the function told about each move
    mixes = [st.ev[i] for st in r.states for i in keyed(st, sub(P(r.params[0]), "inner"), "kmix")]
    n = 0
    for b in o.p.bodies.values():
        if b["local"] and b["closure"] and b["id"] in closures_of(o.p, mixes):
            n += 1
            c = o.run(b)
            if inplace:
                followed(o, c)
                continue
            for st in c.states:
                if st.exit.k != "return":
                    o.path(c, st, False, "recording a move never fails")
                    continue
                p = [e for e in st.ev if e.k in ("kput", "kdel", "kclear")]
                a = c.params[-2:]
                if o.path(c, st, len(p) == 1 and p[0].k == "kput", "each move is recorded once"):
                    o.path(c, st, p[0].key == a[0] and p[0].val == a[1], "a move is recorded from its old slot to its new one")
                o.path(c, st, st.ret == I(1), "a move is accepted once it is recorded")
    o.need(n >= 1, "%s: moves are recorded" % r.path)


def followed(o, c):
    """the function told about each move brings the mappings up to date itself.
    (A slab is compacted from its end into its lowest gaps, so that no slot
    moved to is one moved from later.)"""
    map = (("P", ("f", ("*", c.params[0]), "0")), ())
    old, new = c.params[-2:]
    turns = 0
    for st in c.states:
        lo = last_loop(st)
        each = next((e for e in st.ev[lo:] if e.k == "each"), None)
        ws = [e for e in st.ev if e.k in ("write", "kput", "kdel", "kclear") and e.loc[0] == map[0]]
        if st.exit.k == "return":
            o.path(c, st, any(e.k == "each_end" and e.loc == map for e in st.ev), "every mapping is looked at")
            o.path(c, st, not ws, "nothing but the mappings' slots changes")
            o.path(c, st, st.ret == I(1), "a move is accepted once it is recorded")
        elif not o.path(c, st, st.exit.k == "loopback" and each is not None and each.loc == map, "recording a move never fails"):
            continue
        else:
            turns += 1
            at = next((st.f.truth(compare("Eq", a, b)) for e in st.ev[lo:] if e.k == "branch" and e.cond[0] in ("eq", "ne")
                       for a, b in (e.cond[1:3], e.cond[2:0:-1]) if b == old and same_index(a, each, None)), None)
            if at is True:
                v = len(ws) == 1 and ws[0].k == "write" and ws[0].loc[1][:1] == (("i", each.key),) and ws[0].loc[1][1:] in ((), (("f", "index"),))
                o.path(c, st, v and (ws[0].val if len(ws[0].loc[1]) == 2 else field(ws[0].val, "index")) == new, "a moved item's mapping becomes the slot it moved to")
            else:
                o.path(c, st, at is False and not ws, "the mapping of an item that was not moved is kept")
    o.need(turns >= 2, "%s: mappings are compared with the slot moved from" % c.path)


def closures_of(p, mixes):
    out = set()
    for e in mixes:
        t = p.types[e.fty]
        if t.get("k") == "closure":
            out |= {b["id"] for b in p.bodies.values() if Program.norm(b["path"]) == Program.norm(t["path"])}
    return out


def captured_map(st, mix):
    """location of the map the closure records moves in"""
    for n, v in mix.fun[3]:
        if v[0] == "ref":
            return v[1]
    return None


def same_index(k, each, s):
    """k is the slot the visited mapping pointed to"""
    return k[0] == "f" and k[2] == "index" and k[1][0] == "ix" and k[1][2] == each.key


def moved_to(w, s, k):
    rest = w.loc[1][len(s.map[1]) + 1:]
    v = field(w.val, "index") if not rest else w.val
    return rest in ((), (("f", "index"),)) and v[0] == "ix" and v[2] == k


def rewritten(w, s, each):
    """the visited mapping is given the slot it has already"""
    rest = w.loc[1][len(s.map[1]) + 1:]
    v = field(w.val, "index") if not rest else w.val
    return rest in ((), (("f", "index"),)) and same_index(v, each, s)


@rule("slab.whole", "C21 C22 C27", "Clearing forgets every item and every key; a new storage is empty; sizes are those of the slab and asking changes nothing", ("default",))
def slab_whole(o):
    r = o.run(o.p.method(SL, "clear"))
    for st in r.states:
        s = Store(r, st, P(r.params[0]))
        if not o.path(r, st, st.exit.k == "return", "clearing always returns"):
            continue
        for loc, what in ((s.slab, "all items are dropped"), (s.map, "all keys are forgotten")):
            v = final(st, loc)
            o.path(r, st, [st.ev[i].k for i in keyed(st, loc)] == ["kclear"] or v is not None and v[0] == "ag" and v[1] == "$keyed" and not keyed(st, loc), what)
    r = o.run(o.p.method(SL, "with_capacity"))
    for st in r.rets():
        o.path(r, st, field(st.ret, "compact_called") == I(0), "a new storage is not compacted")
        for n in ("inner", "key_map"):
            v = field(st.ret, n)
            o.path(r, st, v[0] == "ag" and v[1] == "$keyed", "a new storage is empty")
    for n, want in (("len", lambda i: field(i, "$n")), ("is_empty", lambda i: compare("Eq", field(i, "$n"), I(0))), ("capacity", lambda i: field(i, "$cap"))):
        r = o.run(o.p.method(SL, n))
        for st in r.states:
            i = field(("*", r.params[0]), "inner")
            o.path(r, st, st.exit.k == "return" and st.ret == want(i), "the answer is that of the slab")
            o.path(r, st, not [e for e in st.ev if e.k in ("write", "kput", "kdel", "kclear", "kcap", "call")], "asking changes nothing")
    for n in ("reserve", "shrink_to_fit"):
        r = o.run(o.p.method(SL, n))
        for st in r.states:
            s = Store(r, st, P(r.params[0]))
            o.path(r, st, st.exit.k == "return", "changing the capacity returns")
            o.path(r, st, not keyed(st, s.slab) and not keyed(st, s.map) and not [e for e in st.ev if e.k == "write"], "capacity changes keep items and keys")
            o.path(r, st, any(e.k == "kcap" and e.loc == s.slab and e.op.startswith(n) for e in st.ev), "the slab's capacity is changed")


# ------------------------------------------------------------------ the intrusive lists
STACK = "Stack"


def optval(st, t):
    """None / (payload,) for an option term whose variant the path knows; the term itself otherwise"""
    if t[0] == "ag":
        return None if t[2] == "None" else (field(t, "Some.0"),)
    d = st.f.const(("disc", t))
    return t if d is None else (field(t, "Some.0"),) if d else None


def says(st, t, x, want):
    """Wherever x has one of the given values on this path, the truth of t is as wanted."""
    for v, b in want.items():
        f = st.f.copy()
        if f.set_const(x, v) and (bool(t[1]) if is_i(t) else f.truth(t)) is not b:
            return False
    return True


class Links:
    """The cells of a store in one storage mode, and facts for keys of different live items."""

    def __init__(self, c, store):
        self.c = c
        self.slab = (("P", store), (("f", "inner"),))
        self.t = ("*", store)
        self.facts = Facts()
        self.facts.set_const(field(self.t, "compact_called"), c)

    def slot(self, k):
        return field(k if self.c == 0 else elem(field(self.t, "key_map"), k), "index")

    def loc(self, k, n):
        return (self.slab[0], self.slab[1] + (("i", self.slot(k)), ("f", n)))

    def init(self, k, n):
        return field(elem(field(self.t, "inner"), self.slot(k)), n)

    def apart(self, *keys):
        for i, a in enumerate(keys):
            for b in keys[:i]:
                self.facts.add_ord("ne", self.slot(a), self.slot(b))


def links_run(o, name, nargs, item_ref=None, prep=None):
    b = o.p.method(ST, name, STACK)
    for c in (0, 1):
        ps = [("s", next(FRESH), n) for n in ("self", "item", "store")[:nargs]] if nargs == 3 else [("s", next(FRESH), n) for n in ("self", "store")]
        L = Links(c, ps[-1])
        k = ps[1] if nargs == 3 else None
        if item_ref:
            k = ("*", k)
        if prep:
            prep(L, ps, k)
        r = o.run(b, args={i + 1: p for i, p in enumerate(ps)}, facts=L.facts)
        yield r, L, ps, k


def stale(st):
    """a look-up of a key found nothing: no path of a queue whose keys are all live"""
    return any(e.k == "klook" and st.f.const(e.res) == 0 for e in st.ev) or st.exit.k == "panic" and not str(st.exit.d.get("why", "")).startswith("core::panicking")


def settle(o, r, st, want, what, may=()):
    """The final memory differs from the initial one exactly as wanted: {location: (initial, final)}"""
    got = {}
    for e in st.ev:
        if e.k == "write":
            got[e.loc] = e.val
        elif e.k in ("kput", "kdel", "kclear", "kmix"):
            o.path(r, st, False, "lists only relink items")
    for loc, (ini, fin) in want.items():
        v = got.pop(loc, ini)
        o.path(r, st, optval(st, v) == optval(st, fin) or v == fin, "%s: %s" % (what, loc[1][-1][1]))
    for loc, v in got.items():
        o.path(r, st, loc in dict(may) and optval(st, v) == optval(st, dict(may)[loc]), what + ": nothing else changes")


def head_of(ps):
    return (("P", ps[0]), (("f", "head"),)), field(("*", ps[0]), "head")


@rule("stack.push", "C21 C24", "Pushing puts the item in front: it links to the old head, which links back, and nothing else changes", ("default",))
def stack_push(o):
    seen = set()
    for r, L, ps, k in links_run(o, "push", 3):
        hl, h = head_of(ps)
        for st in r.states:
            if stale(st):
                continue
            if not o.path(r, st, st.exit.k == "return", "returns"):
                continue
            some_ = st.f.const(("disc", h))
            seen.add((L.c, some_))
            want = {hl: (h, some(k)), L.loc(k, "next"): (L.init(k, "next"), h)}
            if some_ != 0:
                x = field(h, "Some.0")
                want[L.loc(x, "prev")] = (L.init(x, "prev"), some(k))
            settle(o, r, st, want, "the pushed item becomes the head", {L.loc(k, "prev"): NONE})
    o.need({(0, 0), (0, 1), (1, 0), (1, 1)} <= seen, "push handles empty and non-empty lists")


@rule("stack.pop", "C21 C24", "Popping takes the head off, advances to its successor and leaves the item unlinked; an empty list yields none", ("default",))
def stack_pop(o):
    seen = set()

    def prep(L, ps, _):
        # nothing comes before the head, and it does not follow itself (see stack.push, stack.remove)
        k = field(head_of(ps)[1], "Some.0")
        L.apart(k, field(L.init(k, "next"), "Some.0"))
        L.facts.assume(("disc", L.init(k, "prev")), False)
    for r, L, ps, _ in links_run(o, "pop", 2, None, prep):
        hl, h = head_of(ps)
        for st in r.states:
            if stale(st):
                continue
            if not o.path(r, st, st.exit.k == "return", "returns"):
                continue
            if st.f.const(("disc", h)) == 0:
                seen.add((L.c, 0))
                o.path(r, st, variant(st.ret) == "None" or st.ret == h, "an empty list yields nothing")
                settle(o, r, st, {}, "an empty list stays empty", {hl: NONE})
                continue
            k = field(h, "Some.0")
            n = L.init(k, "next")
            seen.add((L.c, 1, st.f.const(("disc", n))))
            o.path(r, st, optval(st, st.ret) == (k,), "the head is what comes out")
            want = {hl: (h, n), L.loc(k, "next"): (n, NONE)}
            if st.f.const(("disc", n)) != 0:
                x = field(n, "Some.0")
                want[L.loc(x, "prev")] = (L.init(x, "prev"), NONE)
            settle(o, r, st, want, "the list advances to the next item", {L.loc(k, "prev"): NONE})
    o.need({(0, 0), (1, 0), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)} <= seen, "pop handles lists of any length", "", str(seen))


@rule("stack.remove", "C21 C22 C24", "Removing an item joins its neighbours, moves the head exactly when it was the first, and leaves it unlinked", ("default",))
def stack_remove(o):
    seen = set()

    def prep(L, ps, k):
        L.apart(k, field(L.init(k, "next"), "Some.0"), field(L.init(k, "prev"), "Some.0"))
    for r, L, ps, k in links_run(o, "remove", 3, True, prep):
        hl, h = head_of(ps)
        n, p = L.init(k, "next"), L.init(k, "prev")
        for st in r.states:
            if stale(st):
                continue
            if not o.path(r, st, st.exit.k == "return", "returns"):
                continue
            dn, dp = st.f.const(("disc", n)), st.f.const(("disc", p))
            seen.add((L.c, dn, dp))
            want = {L.loc(k, "next"): (n, NONE), L.loc(k, "prev"): (p, NONE)}
            if dn != 0:
                want[L.loc(field(n, "Some.0"), "prev")] = (L.init(field(n, "Some.0"), "prev"), p)
            if dp != 0:
                want[L.loc(field(p, "Some.0"), "next")] = (L.init(field(p, "Some.0"), "next"), n)
            if dp != 1:
                want[hl] = (h, n)
            settle(o, r, st, want, "the item's neighbours are joined")
    o.need(len([x for x in seen if None not in x]) == 8, "remove handles first, last, middle and only items", "", str(seen))


@rule("stack.query", "C21 C24", "A list is empty exactly when it has no head, a new one is empty, and an item's time is the one stored with it", ("default",))
def stack_query(o):
    r = o.run(o.p.method(ST, "is_empty", STACK))
    h = field(("*", r.params[0]), "head")
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and says(st, st.ret, ("disc", h), {0: True, 1: False}), "empty is having no head")
        o.path(r, st, not [e for e in st.ev if e.k == "write"], "asking changes nothing")
    r = o.run(o.p.method(ST, "default", "Default"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and field(st.ret, "head") == NONE, "a new list is empty")
    b = o.p.method(ST, "when", STACK)
    for c in (0, 1):
        ps = [("s", next(FRESH), "item"), ("s", next(FRESH), "store")]
        L = Links(c, ps[1])
        r = o.run(b, args={1: ps[0], 2: ps[1]}, facts=L.facts)
        n = 0
        for st in r.states:
            if stale(st):
                continue
            n += 1
            o.path(r, st, st.exit.k == "return" and st.ret == L.init(("*", ps[0]), "when"), "the time is the item's own")
            o.path(r, st, not [e for e in st.ev if e.k == "write"], "asking changes nothing")
        o.need(n, "Stack::when: returns")
