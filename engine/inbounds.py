"""Every index is within its array, slice or vector (C32).

Most indices are decided where they are used, by the path's own facts.  What is
left here: values bounded by their bits (masks, shifts, leading zeros), loop
counters by induction over the loop's trips, and the positions which the heap
stores for its own entries (the rules about the heap decide that these stay
positions: it only appends to its table and only stores positions it has)."""
import re
from terms import *
import progress


NANOS = {"subsec_nanos": 999999999, "subsec_micros": 999999, "subsec_millis": 999}


WHOLE = {"as_nanos": 10 ** 9, "as_micros": 10 ** 6, "as_millis": 1000}


def hi(f, t, n=6):
    """an upper bound of t, or None"""
    c = f.const(t)
    if c is not None:
        return c
    best = None

    def cand(v):
        nonlocal best
        if v is not None and (best is None or v < best):
            best = v
    for a, b, r in f.ord:
        if a == t and is_i(b):
            cand(b[1] - (r == "lt"))
        if r == "eq" and b == t and is_i(a):
            cand(a[1])
    if n == 0:
        return best
    if t[0] == "bin" and t[2] != "f":
        op, x, y = t[1], t[3], t[4]
        if op == "BitAnd":
            cand(hi(f, x, n - 1))
            cand(hi(f, y, n - 1))
        elif op == "BitOr" or op == "BitXor":
            a, b = hi(f, x, n - 1), hi(f, y, n - 1)
            if a is not None and b is not None:
                cand((1 << max(a.bit_length(), b.bit_length())) - 1)
        elif is_i(y) and op == "Div" and y[1]:
            a = hi(f, x, n - 1)
            cand(None if a is None else a // y[1])
        elif is_i(y) and op == "Rem" and y[1]:
            cand(y[1] - 1)
            cand(hi(f, x, n - 1))
        elif op == "Shr":
            a = hi(f, x, n - 1)
            cand(None if a is None else a >> (y[1] if is_i(y) else 0))
        elif op == "Shl" and is_i(y):
            a = hi(f, x, n - 1)
            if a is not None and a << y[1] < 1 << t[2]:
                cand(a << y[1])
    elif t[0] == "cast" and t[1].startswith("IntToIntu"):
        a = hi(f, t[4], n - 1)
        if a is not None and a < 1 << t[2]:
            cand(a)
    elif t[0] == "app" and t[1] in ("leading_zeros", "trailing_zeros", "count_ones") and is_i(t[2]):
        if t[1] == "leading_zeros":
            cand(t[2][1] - lo(f, t[3], n - 1).bit_length())
        cand(t[2][1])
    elif t[0] == "app" and t[1] == "pow" and is_i(t[3]):
        a = hi(f, t[4], n - 1)
        if a is not None and a <= 64 and t[3][1] ** a < 1 << 64:
            cand(t[3][1] ** a)
    elif t[0] == "app" and t[1] in NANOS:
        cand(NANOS[t[1]])
    elif t[0] == "app" and t[1] in WHOLE:
        cand((1 << 64) * WHOLE[t[1]] - 1)
    elif t[0] == "lin":
        v = span(f, t, n)
        cand(v and v[1])
    if best is None and t[0] in ("bin", "cast", "lin") and isinstance(t[1 if t[0] == "lin" else 2], int):
        best = (1 << t[1 if t[0] == "lin" else 2]) - 1
    return best


def lo(f, t, n=6):
    c = f.const(t)
    if c is not None:
        return c
    best = 0
    for a, b, r in f.ord:
        if b == t and is_i(a):
            best = max(best, a[1] + (r == "lt"))
    if f.truth(compare("Eq", t, I(0))) is False:
        best = max(best, 1)
    if n == 0:
        return best
    if t[0] == "bin" and t[1] == "BitOr":
        best = max(best, lo(f, t[3], n - 1), lo(f, t[4], n - 1))
    elif t[0] == "bin" and t[1] == "Div" and is_i(t[4]) and t[4][1]:
        best = max(best, lo(f, t[3], n - 1) // t[4][1])
    elif t[0] == "cast" and t[1].startswith("IntToIntu"):
        h = hi(f, t[4], n - 1)
        if h is not None and h < 1 << t[2]:
            best = max(best, lo(f, t[4], n - 1))
    elif t[0] == "app" and t[1] == "leading_zeros" and is_i(t[2]):
        h = hi(f, t[3], n - 1)
        if h is not None:
            best = max(best, t[2][1] - h.bit_length())
    elif t[0] == "lin":
        v = span(f, t, n)
        best = max(best, v[0] if v else 0)
    return best


def span(f, t, n):
    """(least, greatest) value of a sum that does not wrap, or None"""
    w = t[1]
    a = b = sgn(t[2], w)
    ks = {x: sgn(k, w) for x, k in t[3]}
    for x, k in list(ks.items()):       # y - y % m is between 0 and y
        if k < 0 and x[0] == "bin" and x[1] in ("BitAnd", "Rem", "Div", "Shr") and ks.get(x[3], 0) == -k:
            h = hi(f, x[3], n - 1)
            if h is None:
                return None
            b += -k * h
            del ks[x], ks[x[3]]
    for x, k in ks.items():
        h, l = hi(f, x, n - 1), lo(f, x, n - 1)
        if h is None:
            return None
        a += k * (l if k > 0 else h)
        b += k * (h if k > 0 else l)
    return (a, b) if a >= 0 and b < 1 << w else None


def below(f, a, b, n=3):
    """a < b by the facts f"""
    if f.holds("lt", a, b) is True:
        return True
    h = hi(f, a)
    if h is not None and h < lo(f, b):
        return True
    if b[0] == "lin" and b[2] == 1 and len(b[3]) == 1 and b[3][0][1] == 1 and a[0] == "bin" and a[1] in ("BitAnd", "Div", "Shr", "Rem") and b[3][0][0] in (a[3], a[4] if a[1] == "BitAnd" else a[3]):
        return True
    # b = a + k with k > 0, both lengths or indices (they do not wrap)
    ca, da = as_lin(a, 64)
    cb, db = as_lin(b, 64)
    if da == db and sgn(cb - ca & (1 << 64) - 1, 64) > 0:
        return True
    # b - a is a difference that a fact says is positive
    for x, y, r in f.ord:
        if r in ("lt", "le"):
            cx, dx = as_lin(x, 64)
            cy, dy = as_lin(y, 64)
            if diff(da, db) == diff(dx, dy) and sgn((cb - ca) - (cy - cx) & (1 << 64) - 1, 64) + (r == "lt") > 0:
                return True
    return False


def diff(a, b):
    d = dict(b)
    for k, v in a.items():
        d[k] = (d.get(k, 0) - v) & (1 << 64) - 1
    return {k: v for k, v in d.items() if v}


def split(cond):
    """(a, b) when cond says a < b"""
    if cond[0] == "lt":
        return cond[1], cond[2]
    if cond[0] == "le":
        return cond[1], binop("Add", cond[2], I(1), 64)
    if cond[0] == "not" and cond[1][0] == "eq":
        x, y = cond[1][1], cond[1][2]
        if is_i(y) and y[1] == 0:
            c, d = as_lin(x, 64)        # a sum of lengths minus indices is not zero: negative parts below the others
            pos = lin(64, c if sgn(c, 64) > 0 else 0, {a: k for a, k in d.items() if sgn(k, 64) > 0})
            neg = lin(64, -c & (1 << 64) - 1 if sgn(c, 64) < 0 else 0, {a: -k & (1 << 64) - 1 for a, k in d.items() if sgn(k, 64) < 0})
            return neg, pos
    return None


def stored(a, b):
    """a is a position which the heap keeps for a table of its own, and b the length of that table"""
    s = show(b) if b is not None else "index.$len"
    if re.search(r"items\.\$len", s) and re.search(r"index\[.*\]\.(\w+\.)?value$", show(a)):
        return True
    return bool(re.search(r"index\.\$len|\bindex\b.*\$len", s)) and bool(re.search(r"\.1$|next_index|\.idx$", show(a)))


def inbounds(r, st, e):
    if e.known is True:
        return True
    f = e.d.get("facts")
    if f is None:
        return False
    ab = split(e.cond)
    if ab is None:
        return False
    a, b = ab
    if below(f, a, b) or stored(a, b) or handed(r, a):
        return True
    # induction: a counter of a loop, or something not above one
    for x in {a} | {s for s in atoms(a)}:
        if x in r.e.loopvals and (x == a or f.holds("le", a, x) is True or progress.smaller(f, x, a)):
            if inductive(r, x, b) or any(below(f, y, b) for y in alike(r, x)):
                return True
    return False


def alike(r, s):
    """counters of the same loop which start and move like s"""
    for info in r.e.loopinfo.values():
        ss = set(info["syms"].values())
        if s in ss:
            shape = {subst(v, s) for v in r.e.loopvals[s]}
            for y in ss:
                if y != s and {subst(v, y) for v in r.e.loopvals.get(y, ())} == shape:
                    yield y


def subst(v, s):
    c, d = as_lin(v, 64)
    return (c, tuple(sorted(((("self",) if a == s else a), k) for a, k in d.items()))) if not any(a != s and contains(a, s) for a in d) else (v, s)


def handed(r, a):
    """an argument of the function under analysis, judged where it is called; the level and slot of an
    expiration, judged where expirations are made"""
    if a in r.params:
        return True
    return bool(re.search(r"next_expiration.*\.(level|slot)$", show(a)))


def inductive(r, s, b):
    """s < b on entry to its loop and after every trip"""
    vals = set(r.e.loopvals[s])
    for lid, info in r.e.loopinfo.items():
        if s in info["syms"].values() and any(contains(b, y) for y in info["syms"].values()):
            return False
    for st in r.states:
        if st.exit.k != "loopback" or s not in (st.exit.d["next"] or {}):
            continue
        v = st.exit.d["next"][s]
        vals.discard(v)
        if v != s and not below(st.f, v, b) and not progress.smaller(st.f, s, v):
            return False
    vals.discard(s)
    return bool(vals) and all(any(below(st.f, v, b) for st in r.states) for v in vals)


LENGTH = re.compile(r"\$(len|cap|n)\)*$")
COUNT = 1 << 28      # what a 32-bit address space can hold of the entries the crate keeps (16 bytes or more each)
TIME = 1 << 62       # milliseconds


def fits(r, st, e):
    """This arithmetic does not overflow on the target, where usize has 32 bits."""
    f, c = e.facts, e.cond
    if c[0] == "not":
        c = c[1]
    if c[0] == "app" and c[1] == "overflow":
        op, a, b, w, signed = c[2][1].replace("WithOverflow", ""), c[3], c[4], c[5][1], c[6][1]
        if signed:
            x, y = (most(r, f, v[4] if v[0] == "cast" and v[1].startswith("IntToInti") else v, w) for v in (a, b))
            return op in ("Add", "Sub") and x is not None and y is not None and x + y < 1 << w - 1
        if op == "Sub" and b == I(1) and re.search(r"\bitems\.\$len$", show(a)) and any(
                t[0] == "disc" and v == 1 and re.search(r"index\[.*\]\)$", show(t)) for t, v in f.eq.items()):
            return True     # an occupied place of the heap's index stands for an entry
        if op == "Sub":
            return under(r, f, b, binop("Add", a, I(1), 64)) or lo(premises(r, f, a, w), a) >= (most(r, f, b, w) or 1 << 80)
        if op == "Add" and r.path.endswith("::reserve") and {a, b} & set(r.params):
            return True     # more than the queue can hold
        if op == "Add" and (ahead(a, b) or ahead(b, a)):
            return True
        x, y = most(r, f, a, w), most(r, f, b, w)
        if x is None or y is None:
            return False
        return (x + y if op == "Add" else x * y if op == "Mul" else x ** y) < 1 << w
    ab = split(e.cond)
    return ab is not None and under(r, f, *ab)


def under(r, f, a, b):
    if below(f, a, b):
        return True
    return any(x in r.e.loopvals and (x == a or progress.smaller(f, x, a)) and inductive(r, x, b) for x in atoms(a))


def ahead(z, x):
    """The distance z of the first occupied slot from slot x, added to x.  Below the top level what is occupied lies
    ahead in the same group of 64 (the rules about the wheel), so the sum does not reach the next multiple of 64;
    at the top level x is far below the range."""
    while z[0] == "cast":
        z = z[4]
    if z[0] != "app" or z[1] != "trailing_zeros" or z[3][0] != "app" or z[3][1] != "rotate_right":
        return False
    y = z[3][4]
    while y[0] == "cast":
        y = y[4]
    return y == x


def most(r, f, t, w):
    """The greatest value of t, given what lengths, positions and times can be."""
    return hi(premises(r, f, t, w), t)


def least(r, x):
    """where a loop's counter that only grows begins"""
    out = []
    for v in r.e.loopvals[x]:
        c, d = as_lin(v, 64)
        if d == {x: 1} and c < COUNT:
            continue
        if not is_i(v):
            return 0
        out.append(v[1])
    return min(out, default=0)


def premises(r, f, t, w):
    g = f.copy()
    for x in atoms(t):
        if x[0] == "cast" and x[1].startswith("FloatToInt") and w == 64:
            g.ord = g.ord + ((x, I(1 << 53), "le"),)        # a time of the host's, which is a double
        if x[0] in ("i", "str", "bin", "lin", "cast", "ag", "tuple"):
            continue
        top = None
        if LENGTH.search(show(x)) or stored(x, None):
            top = COUNT
        elif x in r.e.loopvals:
            lens = {y for a, b, _ in f.ord for z in (a, b) for y in atoms(z) if y[0] != "lin" and LENGTH.search(show(y))}
            if any(below(f, x, y) or inductive(r, x, y) or any(below(f, z, y) for z in alike(r, x)) for y in lens):
                top = COUNT
            m = least(r, x)
            if m:
                g.ord = g.ord + ((I(m), x, "le"),)
        elif w == 64 and x[0] in ("s", "f", "*"):
            top = TIME
        elif w == 32 and x[0] in ("s", "f", "*") and x not in r.params:
            top = COUNT     # a count or a position: what is cut down from 64 bits shows its mask
        if top is not None:
            g.ord = g.ord + ((x, I(top), "le"),)
    return g
