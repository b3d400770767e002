"""tokio_util::wheel: the hierarchical timing wheel"""
from framework import *
from arith import poly, padd, same

LV = "tokio_util::wheel::level::Level"
WH = "tokio_util::wheel::Wheel"
LEVELS = r"^tokio_util::wheel::level::Level::<.*>::"
N = 6
MAX = (1 << 6 * N) - 1
STK = "tokio_util::wheel::stack::Stack::"


# ------------------------------------------------------------------ bit fields
def bits(t):
    """how many low bits t can have set"""
    if is_i(t):
        return t[1].bit_length()
    if t[0] == "bin" and t[2] != "f":
        if t[1] == "BitAnd" and is_i(t[4]):
            return min(t[4][1].bit_length(), bits(t[3]))
        if t[1] == "Shr" and is_i(t[4]):
            return max(0, bits(t[3]) - t[4][1])
        if t[1] == "Div":
            return bits(t[3])
        return t[2]
    if t[0] == "cast":
        return min(t[2], bits(t[4]) if t[1].startswith("IntToIntu") else t[2])
    if t[0] == "app" and t[1] in ("leading_zeros", "trailing_zeros", "count_ones"):
        return 7
    if t[0] == "lin":
        return t[1]
    return 64


def low(t, j):
    """a simpler term with the same low j bits"""
    t = bf(t)
    if t[0] == "cast" and t[1].startswith("IntToInt") and t[2] >= j and (t[1].startswith("IntToIntu") or int(t[1][9:]) >= j):
        return low(t[4], j)
    if t[0] == "bin" and t[1] == "BitAnd" and is_i(t[4]) and t[4][1] & mask(j) == mask(j):
        return low(t[3], j)
    if t[0] == "lin":
        d = {}
        c = t[2]
        for a, k in t[3]:
            a = low(a, j)
            c2, d2 = as_lin(a, 64)
            c += k * c2
            for x, y in d2.items():
                d[x] = d.get(x, 0) + k * y
        return lin(64, c & mask(j), {a: k & mask(j) for a, k in d.items()})
    if is_i(t):
        return I(t[1] & mask(j))
    return t


def bf(t):
    """Normal form of shifts, masks and casts of unsigned values."""
    if t[0] == "bin" and t[2] != "f":
        op, w = t[1], t[2]
        a, b = bf(t[3]), bf(t[4])
        if op in ("Shl", "Shr") and b[0] == "cast":
            b = b[4]
        r = binop(op, a, b, w)
        if r[0] != "bin":
            return r
        if r[1] == "Shr" and is_i(r[4]):
            x, s = r[3], r[4][1]
            if bits(x) <= s:
                return I(0)
            if x[0] == "bin" and x[1] == "BitAnd" and is_i(x[4]):
                return bf(binop("BitAnd", binop("Shr", x[3], I(s), w), I(x[4][1] >> s), w))
        if r[1] == "BitAnd" and is_i(r[4]):
            m, x = r[4][1], r[3]
            if bits(x) <= m.bit_length() and pow2(m + 1):
                return x
            hole = ~m & mask(w)
            if hole and pow2(hole + 1):
                return bf(binop("Sub", x, binop("BitAnd", x, I(hole), w), w))
            if pow2(m + 1):
                y = low(x, m.bit_length())
                if y != x:
                    return bf(binop("BitAnd", y, I(m), w))
        return r
    if t[0] == "lin":
        c, d = t[2], {}
        for a, k in t[3]:
            c2, d2 = as_lin(bf(a), t[1])
            c += k * c2
            for x, y in d2.items():
                d[x] = d.get(x, 0) + k * y
        return lin(t[1], c, d)
    if t[0] == "cast" and t[1].startswith("IntToIntu"):
        a = bf(t[4])
        return a if bits(a) <= t[2] else ("cast", t[1], t[2], t[3], a)
    if t[0] == "app":
        return t[:2] + tuple(bf(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:])
    return t


def eqb(a, b):
    return a == b or bf(a) == bf(b) or poly(bf(a)) == poly(bf(b))


def slot_of(when, l):
    return bf(binop("BitAnd", binop("Shr", when, I(6 * l), 64), I(63), 64))


def flagged(t, occ, slot, on, marked=True):
    """t is occ with the bit of slot set (on) or cleared; flipping it clears it only if it is known to be marked"""
    t = bf(t)
    bit = bf(binop("Shl", I(1), slot, 64))
    if on:
        return t == bf(binop("BitOr", occ, bit, 64))
    return marked and t == bf(binop("BitXor", occ, bit, 64)) or t == bf(binop("BitAnd", occ, unop("Not", bit, 64), 64))


def related(st, a, b):
    """'lt' / 'ge' between two arithmetic terms, by their normal forms"""
    h = st.f.holds("lt", a, b)
    if h is not None:
        return "lt" if h else "ge"
    pa, pb = poly(bf(a)), poly(bf(b))
    for x, y, op in st.f.ord:
        px, py = poly(bf(x)), poly(bf(y))
        if (px, py) == (pa, pb) and op == "lt":
            return "lt"
        if (px, py) == (pb, pa) and op in ("le", "lt", "eq"):
            return "ge"
        if (px, py) == (pa, pb) and op == "eq":
            return "ge"
    return None


# ------------------------------------------------------------------ Level
def level_runs(o, name):
    b = o.p.method(LV, name)
    for l in range(N):
        ps = [("s", next(FRESH), n or "a") for _, n in b["locals"][1: b["argc"] + 1]]
        r = o.run(b, args={i + 1: p for i, p in enumerate(ps)}, mem={(("P", ps[0]), (("f", "level"),)): I(l)})
        yield l, r, ps


def scalls(st, name):
    return [i for i, e in enumerate(st.ev) if e.k == "call" and e.decl == STK + name]


def occupied(r, st, ps):
    occ = field(("*", ps[0]), "occupied")
    v = final(st, (("P", ps[0]), (("f", "occupied"),)))
    return occ, occ if v is None else v


def slot_arg(e, ps):
    """index of the slot of this level the call works on"""
    v = e.args[0]
    if v[0] == "ref" and v[1][0] == ("P", ps[0]) and len(v[1][1]) == 2 and v[1][1][0] == ("f", "slot") and v[1][1][1][0] == "i":
        return v[1][1][1][1]
    return None


def foreign(st, ps):
    """writes to the level besides the occupied set"""
    return [e for e in st.ev if e.k == "write" and e.loc != (("P", ps[0]), (("f", "occupied"),))]


def cleared_iff_empty(o, r, st, ps, idx, after, marked=True):
    """the slot's bit goes exactly when the slot is found empty after the removal"""
    occ, v = occupied(r, st, ps)
    em = [i for i in scalls(st, "is_empty") if i > after]
    if not o.path(r, st, len(em) >= 1 and all(slot_arg(st.ev[i], ps) is not None and eqb(slot_arg(st.ev[i], ps), idx) for i in em), "it is looked whether the slot became empty"):
        return
    e = st.f.const(st.ev[em[-1]].ret)
    if o.path(r, st, e is not None, "whether the slot became empty decides"):
        o.path(r, st, flagged(v, occ, idx, False, marked) if e else v == occ, "the slot is marked free exactly when it became empty")


@rule("level.entries", "C24 C21", "A level files an item under bits 6L..6L+5 of its time, marks that slot occupied, and marks a slot free exactly when its last item left", ("default",))
def level_entries(o):
    for l, r, ps in level_runs(o, "add_entry"):
        for st in r.states:
            c = scalls(st, "push")
            if not o.path(r, st, st.exit.k == "return" and len(c) == 1, "the item is filed once"):
                continue
            e = st.ev[c[0]]
            idx = slot_arg(e, ps)
            want = slot_of(ps[1], l)
            o.path(r, st, idx is not None and eqb(idx, want), "level %d files by bits %d to %d of the time" % (l, 6 * l, 6 * l + 5), e)
            o.path(r, st, e.args[1:] == [ps[2], ps[3]] or list(e.args[1:]) == [ps[2], ps[3]], "it is the item that is filed, in the caller's store", e)
            occ, v = occupied(r, st, ps)
            o.path(r, st, flagged(v, occ, want, True), "its slot is marked occupied")
            o.path(r, st, not foreign(st, ps), "nothing else changes")
    for l, r, ps in level_runs(o, "remove_entry"):
        for st in r.states:
            c = scalls(st, "remove")
            if not o.path(r, st, st.exit.k == "return" and len(c) == 1, "the item is taken out once"):
                continue
            e = st.ev[c[0]]
            idx = slot_arg(e, ps)
            want = slot_of(ps[1], l)
            o.path(r, st, idx is not None and eqb(idx, want), "level %d finds by bits %d to %d of the time" % (l, 6 * l, 6 * l + 5), e)
            o.path(r, st, list(e.args[1:]) == [ps[2], ps[3]], "it is the item that is taken out", e)
            cleared_iff_empty(o, r, st, ps, want, c[0])
            o.path(r, st, not foreign(st, ps), "nothing else changes")
    for l, r, ps in level_runs(o, "pop_entry_slot"):
        for st in r.states:
            c = scalls(st, "pop")
            if st.exit.k == "panic" and not c:
                o.path(r, st, st.f.holds("le", I(64), ps[1]) is True, "only slots beyond the last are refused")
                continue
            if not o.path(r, st, st.exit.k == "return" and len(c) == 1, "one item is taken from the slot"):
                continue
            e = st.ev[c[0]]
            o.path(r, st, slot_arg(e, ps) == ps[1], "it is taken from the slot asked for", e)
            o.path(r, st, st.ret == e.ret or variant(st.ret) == "Some" and field(st.ret, "Some.0") == field(e.ret, "Some.0") or variant(st.ret) == "None" and st.f.const(("disc", e.ret)) == 0, "and returned")
            d = st.f.const(("disc", e.ret))
            occ, v = occupied(r, st, ps)
            if d == 0:
                o.path(r, st, v == occ or v == bf(binop("BitAnd", occ, unop("Not", binop("Shl", I(1), ps[1], 64), 64), 64)), "an empty slot stays as it is")
            else:
                cleared_iff_empty(o, r, st, ps, ps[1], c[0], d == 1)
            o.path(r, st, not foreign(st, ps), "nothing else changes")
    r = o.run(o.p.method(LV, "new"))
    for st in r.rets():
        o.path(r, st, field(st.ret, "level") == r.params[0] and field(st.ret, "occupied") == I(0), "a new level has its number and no occupied slot")
        s = field(st.ret, "slot")
        made = {e.ret: e.decl for e in st.ev if e.k == "call"}
        if s[0] == "ag":
            o.path(r, st, len(s[3]) == 64 and all(made.get(v) == "std::default::Default::default" for _, v in s[3]) and len({v for _, v in s[3]}) == 64, "a new level has 64 empty slots")
        else:
            o.path(r, st, made.get(s, "").endswith("from_fn"), "a new level has 64 empty slots")
    o.need(len(r.rets()) >= 1, "Level::new: returns")


@rule("level.next", "C24", "A level's next expiration is the first occupied slot, cyclically, of those that start now or later, and its deadline that slot's start, not before now", ("default",))
def level_next(o):
    for l, r, ps in level_runs(o, "next_expiration"):
        now = ps[1]
        occ = field(("*", ps[0]), "occupied")
        here = binop("Shr", now, I(6 * l), 64) if l else now
        got = set()
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", "returns"):
                continue
            o.path(r, st, not [e for e in st.ev if e.k in ("write", "call")], "looking changes nothing")
            empty = st.f.const(occ) == 0 or st.f.truth(compare("Eq", occ, I(0)))
            if variant(st.ret) == "None":
                got.add("none")
                o.path(r, st, empty == 1, "none exactly when no slot is occupied")
                continue
            x = field(st.ret, "Some.0")
            if not o.path(r, st, variant(st.ret) == "Some" and empty is False, "a level with an occupied slot has a next expiration"):
                continue
            slot, dl = field(x, "slot"), field(x, "deadline")
            o.path(r, st, st.f.const(field(x, "level")) == l, "the expiration names its level")
            o.path(r, st, any(first_from(slot, occ, x) for x in starts(st, now, l)), "level %d looks from the first slot that starts now or later, cyclically" % l)
            start = binop("Sub", now, binop("BitAnd", now, I(mask(6 * l + 6)), 64), 64)
            base = binop("Add", start, binop("Mul", slot, I(1 << 6 * l), 64), 64)
            wrap = binop("Add", base, I(1 << 6 * l + 6), 64)
            rel_ = related(st, base, now)
            if eqb(dl, base):
                got.add("here")
                o.path(r, st, rel_ == "ge" or l < N - 1 and rel_ == "lt", "the deadline is the start of the slot and not in the past")
            elif eqb(dl, wrap):
                got.add("later")
                o.path(r, st, rel_ == "lt", "a slot that lies behind is due one turn later, and only such a slot")
            else:
                o.path(r, st, False, "the deadline is the start of the slot")
        o.need({"none", "here"} <= got and (l < N - 1 or "later" in got), "Level::next_expiration decides all cases of level %d" % l, "", str(got))


def starts(st, now, l):
    """Where level l may begin to look for a slot that starts now or later, given what the path knows of now.
    In the top level a slot that has started holds what is almost a turn ahead, which must not hide what is nearer.
    Below the top, such a slot is empty (an item there is filed one level lower), so it does no harm to begin with it."""
    if not l:
        return [now]
    here, part = binop("Shr", now, I(6 * l), 64), binop("BitAnd", now, I(mask(6 * l)), 64)
    exact = st.f.truth(compare("Eq", part, I(0)))
    got = [binop("Shr", binop("Add", now, I(mask(6 * l)), 64), I(6 * l), 64)]
    if exact or l < N - 1:
        got.append(here)
    if exact is False:
        got.append(binop("Add", here, I(1), 64))
    return got


def first_from(slot, occ, here):
    """slot == (here + number of unoccupied slots from here on) mod 64"""
    s = bf(slot)
    for t in atoms(s):
        if t[0] == "app" and t[1] == "trailing_zeros" and t[2] == I(64):
            x = t[3]
            if x[0] == "app" and x[1] in ("rotate_right", "rotate_left") and x[2] == I(64) and x[3] == occ:
                a = low(x[4], 6)
                if x[1] == "rotate_left":
                    a = low(binop("Sub", I(0), a, 64), 6)
                if a != low(here, 6):
                    continue
                want = bf(binop("BitAnd", low(binop("Add", here, t, 64), 6), I(63), 64))
                return s == want or bf(binop("BitAnd", low(s, 6), I(63), 64)) == want and bits(s) <= 6
    return False


# ------------------------------------------------------------------ Wheel
def lcalls(st, name, lo=0):
    return calls(st, r"^tokio_util::wheel::level::Level::<.*>::%s$" % name, lo)


def level_arg(e, self_):
    v = e.args[0]
    if v[0] == "ref" and v[1][0] == ("P", self_) and len(v[1][1]) == 2 and v[1][1][0] == ("f", "levels") and v[1][1][1][0] == "i":
        return v[1][1][1][1]
    return None


def wrun(o, name):
    """Wheel::name analysed for a wheel of N levels (wheel.next shows that a new one has them; nothing adds or removes any)"""
    b = o.p.method(WH, name)
    ps = [("s", next(FRESH), n or "a") for _, n in b["locals"][1: b["argc"] + 1]]
    return o.run(b, opaque=[LEVELS], args={i + 1: p for i, p in enumerate(ps)}, mem={(("P", ps[0]), (("f", "levels"), ("f", "$len"))): I(N)})


def ahead(st, e, when):
    """e < when is known"""
    return st.f.holds("lt", e, when) is True or st.f.holds("le", e, when) is True and (st.f.truth(compare("Eq", binop("Sub", when, e, 64), I(0))) is False or st.f.holds("eq", e, when) is False)


def passed(st, e, when):
    """when <= e is known"""
    return st.f.holds("le", when, e) is True or st.f.truth(compare("Eq", binop("Sub", when, e, 64), I(0))) is True


def foreign_level(r, st):
    """the path assumes that an expiration found at a level names a level the wheel does not have (level.next shows it names the level asked)"""
    for i in lcalls(st, "next_expiration"):
        v = field(field(st.ev[i].ret, "Some.0"), "level")
        if st.f.holds("le", I(N), v) is True:
            return True
    return False


def fits_level(st, L, e, w):
    """L is the level for time w at elapsed e: the highest group of six bits in which they differ, at most the top"""
    x = binop("BitOr", binop("BitXor", e, w, 64), I(63), 64)
    if is_i(L):
        if L[1] == N - 1:
            return st.f.holds("le", I(1 << 6 * (N - 1)), x) is True or any(st.f.holds("le", I(N - 1), v) is True for v in raw_level(st, x))
        lo, hi = (0 if L[1] == 0 else 1 << 6 * L[1]), 1 << 6 * (L[1] + 1)
        return (lo == 0 or st.f.holds("le", I(lo), x) is True) and st.f.holds("lt", x, I(hi)) is True
    if st.f.holds("lt", x, I(1 << 6 * N)) is not True and not any(st.f.holds("lt", v, I(N)) is True for v in raw_level(st, x)):
        return False
    return bool(raw_level(st, x, [L]))


def raw_level(st, x, among=None):
    """the terms (of those the path compares, or among) that are the number of the highest group of six bits set in x"""
    lz = ("app", "leading_zeros", I(64), x)
    want = [bf(binop("Div", binop("Sub", I(63), lz, w), I(6), w)) for w in (64, 32)]
    ts = among if among is not None else {t for a, b, _ in st.f.ord for t in (a, b)}
    return [t for t in ts if bf(t) in want]


def elapsed_loc(self_):
    return (("P", self_), (("f", "elapsed"),))


def current(r, st, idx, loc):
    """the value at loc just before event idx"""
    for i in range(idx - 1, -1, -1):
        e = st.ev[i]
        if e.k == "write" and e.loc == loc:
            return e.val
        if e.k == "loop":
            s = r.e.loopinfo[e.id]["syms"].get(loc)
            if s is not None:
                return s
    t = r.e.initial(loc[0])
    for s in loc[1]:
        t = field(t, s[1])
    return t


def counter(r, i):
    """i counts 0, 1, 2, ..."""
    return r.e.loopvals.get(i) == {I(0), binop("Add", i, I(1), 64)}


def searched(o, r, st, lo, hi, self_):
    """The search over the levels on events [lo, hi): ("found", expiration) / ("none",) / None.
    Every level is asked in ascending order, with the wheel's own time."""
    cs = [i for i in lcalls(st, "next_expiration", lo) if i < hi]
    for i in cs:
        e = st.ev[i]
        L = level_arg(e, self_)
        if not o.path(r, st, L is not None and (counter(r, L) or is_i(L)), "the levels are asked one by one from the lowest", e):
            return None
        o.path(r, st, e.args[1] == current(r, st, i, elapsed_loc(self_)), "each level is asked for the wheel's present time", e)
    if len(cs) > 1 or any(is_i(level_arg(st.ev[i], self_)) for i in cs):
        # the levels were asked without a loop: all found empty before the last
        ls = [level_arg(st.ev[i], self_) for i in cs]
        if not o.path(r, st, ls == [I(k) for k in range(len(ls))] and all(st.f.const(("disc", st.ev[i].ret)) == 0 for i in cs[:-1]), "the levels are asked one by one from the lowest"):
            return None
        if st.f.const(("disc", st.ev[cs[-1]].ret)) == 0:
            o.path(r, st, len(ls) == N, "none only when every level has none")
            return ("none",)
        return ("found", field(st.ev[cs[-1]].ret, "Some.0"))
    if cs:
        d = st.f.const(("disc", st.ev[cs[0]].ret))
        return ("found", field(st.ev[cs[0]].ret, "Some.0")) if d == 1 else ("empty", level_arg(st.ev[cs[0]], self_))
    # the search ended
    done = [s for s, v in r.e.loopvals.items() if counter(r, s) and st.f.holds("le", I(N), s) is True]
    o.path(r, st, bool(done), "none only when every level has none")
    return ("none",) if done else None


@rule("wheel.insert", "C23 C24", "The wheel refuses times that have passed and times too far ahead, and files every other item at the level of the highest group of bits in which its time differs from the present", ("default",))
def wheel_insert(o):
    r = wrun(o, "insert")
    self_, when, item, store = r.params
    e = field(("*", self_), "elapsed")
    kinds = set()
    for st in r.states:
        o.path(r, st, not [x for x in st.ev if x.k == "write"], "inserting does not move the wheel's time")
        if not o.path(r, st, st.exit.k == "return", "never panics"):
            continue
        add_ = lcalls(st, "add_entry")
        diff = binop("Sub", when, e, 64)
        if variant(st.ret) == "Err":
            back, why = field(field(st.ret, "Err.0"), "0"), variant(field(field(st.ret, "Err.0"), "1"))
            kinds.add(why)
            o.path(r, st, back == item and not add_, "a refused item is handed back and not filed")
            if why == "Elapsed":
                o.path(r, st, passed(st, e, when), "passed means not after the wheel's time")
            else:
                o.path(r, st, why == "Invalid" and ahead(st, e, when) and st.f.holds("lt", I(MAX), diff) is True, "too far means more than 2^36 - 1 ms ahead")
            continue
        kinds.add("Ok")
        o.path(r, st, ahead(st, e, when) and st.f.holds("le", diff, I(MAX)) is True, "only times ahead within the range are accepted")
        if o.path(r, st, variant(st.ret) == "Ok" and len(add_) == 1, "an accepted item is filed once"):
            c = st.ev[add_[0]]
            o.path(r, st, list(c.args[1:]) == [when, item, store], "it is filed under its time", c)
            L = level_arg(c, self_)
            o.path(r, st, L is not None and fits_level(st, L, e, when), "it is filed at the level of the highest differing bits", c)
    o.need(kinds == {"Ok", "Elapsed", "Invalid"}, "%s: accepts, and refuses for two reasons" % r.path, "", str(kinds))


@rule("wheel.remove", "C24 C21", "The wheel looks for an item at exactly the level it is filed at", ("default",))
def wheel_remove(o):
    r = wrun(o, "remove")
    self_, item, store = r.params
    e = field(("*", self_), "elapsed")
    for st in r.states:
        o.path(r, st, not [x for x in st.ev if x.k == "write"], "removing does not move the wheel's time")
        w = scalls(st, "when")
        if not o.path(r, st, len(w) >= 1 and list(st.ev[w[0]].args) == [item, store], "the item's own time is used"):
            continue
        when = st.ev[w[0]].ret
        c = lcalls(st, "remove_entry")
        if st.exit.k == "panic":
            o.path(r, st, not c and st.f.holds("lt", when, e) is True, "refused only for an item the wheel must have handed out")
            continue
        if o.path(r, st, st.exit.k == "return" and len(c) == 1, "the item is taken out once"):
            x = st.ev[c[0]]
            o.path(r, st, list(x.args[1:]) == [when, item, store], "that item is taken out, under its time", x)
            L = level_arg(x, self_)
            o.path(r, st, L is not None and fits_level(st, L, e, when), "it is looked for at the level of the highest differing bits", x)
    o.need(len(r.rets()) >= 1, "%s: returns" % r.path)


@rule("wheel.next", "C24 C20", "The wheel's next expiration is that of the lowest level that has one, for the wheel's own time; a new wheel starts at zero with six levels", ("default",))
def wheel_next(o):
    r = wrun(o, "poll_at")
    self_ = r.params[0]
    kinds = set()
    for st in r.states:
        o.path(r, st, not [x for x in st.ev if x.k == "write" and x.loc[0][0] != "L"], "looking changes nothing")
        s = searched(o, r, st, 0, len(st.ev), self_)
        if s is None:
            continue
        if st.exit.k == "loopback":
            o.path(r, st, s[0] == "empty", "the search goes on only past an empty level")
            continue
        if not o.path(r, st, st.exit.k == "return", "never panics"):
            continue
        kinds.add(s[0])
        if s[0] == "found":
            o.path(r, st, variant(st.ret) == "Some" and field(st.ret, "Some.0") == field(s[1], "deadline"), "the deadline found is reported")
        else:
            o.path(r, st, s[0] == "none" and variant(st.ret) == "None", "none is reported when there is none")
    o.need(kinds == {"found", "none"}, "%s: finds or reports none" % r.path)
    r = o.run(o.p.method(WH, "elapsed"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and st.ret == field(("*", r.params[0]), "elapsed"), "the wheel's time is reported")
    r = o.run(o.p.method(WH, "new"), opaque=[LEVELS])
    for st in r.states:
        if st.exit.k == "loopback":
            continue
        o.path(r, st, st.exit.k == "return" and field(st.ret, "elapsed") == I(0), "a new wheel's time is zero")
        v = field(st.ret, "levels")
        src = next((e for e in st.ev if e.k == "call" and e.ret == v and len(e.args) == 1), None)
        okk = False
        if src is not None:
            it = src.args[0]
            rg, f = field(it, "iter"), field(it, "f")
            okk = it[0] == "ag" and it[1].endswith("::Map") and field(rg, "start") == I(0) and field(rg, "end") == I(N) and makes_level(o, f)
        o.path(r, st, okk or pushed_levels(r, st, v), "a new wheel has levels 0 to %d" % (N - 1))


def pushed_levels(r, st, v):
    """the levels were pushed one by one, numbered by the number there were before"""
    n = field(v, "$len")
    done = [i for i, vs in r.e.loopvals.items() if counter(r, i) and st.f.holds("le", I(N), i) is True]
    backs = [b for b in r.states if b.exit.k == "loopback"]
    if not done or not backs or not (n in done or counter(r, n)):
        return False
    for b in backs:
        push = [e for e in b.ev if e.k == "vec_push"]
        made = [e for e in b.ev if e.k == "call" and e.path.endswith("Level::<T>::new")]
        if len(push) != 1 or len(made) != 1 or push[0].idx != n or push[0].val != made[0].ret:
            return False
        if made[0].args[0] not in done + [n] or not any(b.f.holds("lt", i, I(N)) is True for i in done):
            return False
    return True


def makes_level(o, f):
    s = show(f)
    if "tokio_util::wheel::level::Level::<T>::new" in s:
        return True
    if f[0] == "ag" and f[1].startswith("closure:"):
        for b in o.p.bodies.values():
            if b["local"] and b["closure"] and Program.norm(b["path"]) in Program.norm(f[1]):
                c = o.run(b, opaque=[LEVELS])
                return all(st.exit.k == "return" and [e for e in st.ev if e.k == "call" and e.path.endswith("Level::<T>::new") and e.args == [c.params[-1]] and e.ret == st.ret] for st in c.states)
    return False


@rule("wheel.poll", "C24 C19 C21", "Polling hands out only items of level 0 whose slot is due, moves due coarse slots down completely before time passes them, and never skips or turns back", ("default",))
def wheel_poll(o):
    r = wrun(o, "poll")
    self_, now, store = r.params
    el = elapsed_loc(self_)
    kinds = set()
    for st in r.states:
        if st.exit.k == "panic" and foreign_level(r, st):
            continue
        heads = [i for i, e in enumerate(st.ev) if e.k == "loop"]
        if not o.path(r, st, bool(heads), "polls until nothing is due"):
            continue
        e0 = current(r, st, heads[0] + 1, el)
        pops = lcalls(st, "pop_entry_slot")
        s = searched(o, r, st, heads[0], pops[0] if pops else len(st.ev), self_)
        if s is None:
            continue
        ws = [i for i, e in enumerate(st.ev) if e.k == "write" and e.loc[0] == ("P", self_)]
        o.path(r, st, all(st.ev[i].loc == el for i in ws), "only the wheel's time is written directly")
        at = lambda: current(r, st, len(st.ev), el)
        if s[0] == "empty":
            o.path(r, st, st.exit.k == "loopback" and not pops and not ws, "the search goes on past an empty level")
            continue
        if s[0] == "none" or not pops:
            if s[0] == "found":
                o.path(r, st, st.f.holds("lt", now, field(s[1], "deadline")) is True, "nothing is handed out only when the next expiration lies ahead")
            if st.exit.k == "panic":
                o.path(r, st, st.f.holds("lt", now, at()) is True, "time is refused only when it would run backwards")
                continue
            kinds.add("done" if s[0] == "none" else "ahead")
            o.path(r, st, st.exit.k == "return" and (variant(st.ret) == "None"), "nothing due ends the poll with none")
            same_ = at() == e0 and (st.f.holds("le", now, e0) is True or st.f.holds("eq", now, e0) is True)
            o.path(r, st, at() == now or same_, "the wheel's time becomes now")
            continue
        x = s[1]
        dl, lv, sl = field(x, "deadline"), field(x, "level"), field(x, "slot")
        o.path(r, st, st.f.holds("le", dl, now) is True, "only a slot that is due is emptied")
        for i in pops:
            e = st.ev[i]
            o.path(r, st, level_arg(e, self_) == lv and e.args[1] == sl and e.args[2] == store, "the slot that is due is emptied", e)
        if not o.path(r, st, len(pops) == 1, "one item at a time"):
            continue
        p = st.ev[pops[0]].ret
        d = st.f.const(("disc", p))
        item = field(p, "Some.0")
        adds = lcalls(st, "add_entry", pops[0])
        if d == 0:
            o.path(r, st, not adds, "nothing to move")
            if st.exit.k == "panic":
                o.path(r, st, st.f.holds("lt", dl, e0) is True, "time is refused only when it would run backwards")
                continue
            kinds.add("emptied")
            o.path(r, st, st.exit.k == "loopback" and (at() == dl or at() == e0 and st.f.holds("le", dl, e0) is True), "once the slot is empty the wheel's time becomes the slot's start, and the search starts over")
            continue
        if not o.path(r, st, d == 1 and not [i for i in ws if i > heads[0]], "time does not pass before the slot is empty"):
            continue
        zero = st.f.const(lv) == 0 or st.f.truth(compare("Eq", lv, I(0)))
        if st.exit.k == "return":
            kinds.add("item")
            o.path(r, st, variant(st.ret) == "Some" and field(st.ret, "Some.0") == item and zero == 1 and not adds, "only an item of the finest level is handed out")
        elif o.path(r, st, st.exit.k == "loopback" and zero is False and len(adds) == 1, "an item of a coarser level is moved, and the slot is emptied on"):
            kinds.add("moved")
            e = st.ev[adds[0]]
            w = [i for i in scalls(st, "when") if pops[0] < i]
            b = [q.ret for q in st.ev[pops[0]:] if q.k == "call" and q.decl == "std::borrow::Borrow::borrow"]
            o.path(r, st, level_arg(e, self_) == binop("Sub", lv, I(1), 64), "it moves one level down", e)
            o.path(r, st, e.args[2] == item and bool(w) and e.args[1] == st.ev[w[-1]].ret and (st.ev[w[-1]].args[0] in b or st.ev[w[-1]].vals[0] == item), "it is filed under its own time", e)
    o.need(kinds >= {"done", "ahead", "emptied", "item", "moved"}, "%s: has all its outcomes" % r.path, "", str(kinds))
