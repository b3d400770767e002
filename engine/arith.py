"""Exact linear/polynomial normal form of time and integer expressions, in nanoseconds.

poly(t, st) -> {monomial: coefficient}; a monomial is a sorted tuple of atoms.
Rewrites used: (a + d) - ..., differences of instants known to be ordered,
unit constructors, and  x = (x / y) * y + x % y.
"""
from terms import *

UNIT_NS = {"from_nanos": 1, "from_nanos_u128": 1, "from_micros": 10**3, "from_millis": 10**6, "from_secs": 10**9}


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return d


def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return {k: v for k, v in d.items() if v}


def key(p):
    return tuple(sorted(p.items(), key=repr))


def unkey(k):
    return dict(k)


def atom(t):
    return {(t,): 1}


def poly(t, st=None):
    return divfix(raw(t, st))


def raw(t, st):
    k = t[0]
    if k == "i":
        return {(): t[1]} if t[1] else {}
    if k == "dur":
        return {(): t[1]} if t[1] else {}
    if k == "lin":
        d = {(): sgn(t[2], t[1])} if t[2] else {}
        for a, c in t[3]:
            d = padd(d, pmul(raw(a, st), {(): sgn(c, t[1])}))
        return d
    if k == "cast":
        return raw(t[-1], st) if t[1].startswith("IntToInt") else atom(t)
    if k == "bin":
        if t[2] == "f":
            return atom(t)
        if t[1] == "Mul":
            return pmul(raw(t[3], st), raw(t[4], st))
        if t[1] == "Shl" and is_i(t[4]):
            return pmul(raw(t[3], st), {(): 1 << t[4][1]})
        if t[1] in ("Div", "Rem"):
            return atom((t[1], key(poly(t[3], st)), key(poly(t[4], st))))
        if t[1] == "Shr" and is_i(t[4]):
            return atom(("Div", key(poly(t[3], st)), key({(): 1 << t[4][1]})))
        return atom(t)
    if k == "app":
        f = t[1]
        if f in ("iadd", "dadd"):
            return padd(raw(t[2], st), raw(t[3], st))
        if f in ("isub", "dsub"):
            return padd(raw(t[2], st), raw(t[3], st), -1)
        if f == "idiff":
            if st is None or ordered(st, t[3], t[2]):
                return padd(raw(t[2], st), raw(t[3], st), -1)
            return atom(t)
        if f == "dmul":
            return pmul(raw(t[2], st), raw(t[3], st))
        if f in UNIT_NS:
            return pmul(raw(t[2], st), {(): UNIT_NS[f]})
        if f == "as_nanos":
            return raw(t[2], st)
        if f in ("as_secs", "as_millis", "as_micros"):
            return atom(("Div", key(poly(t[2], st)), key({(): {"as_secs": 10**9, "as_millis": 10**6, "as_micros": 1000}[f]})))
        if f in ("subsec_nanos",):
            return atom(("Rem", key(poly(t[2], st)), key({(): 10**9})))
        if f == "dur_new":
            return padd(pmul(raw(t[2], st), {(): 10**9}), raw(t[3], st))
    return atom(t)


def ordered(st, a, b):
    """a <= b on this path (also through a + d <= b)"""
    if st.f.holds("le", a, b) is True:
        return True
    for x, y, op in st.f.ord:
        for u, v, ok_ in ((x, y, op in ("lt", "le", "eq")), (y, x, op == "eq")):
            if ok_ and v == b and u[0] == "app" and u[1] == "iadd" and u[2] == a:
                return True
            # a < b known through a positive difference
            if ok_ and v[:2] == ("app", "idiff") and v[2] == b and v[3] == a and op == "lt":
                return True
    return False


def divfix(p):
    """(x / y) * y  ->  x - x % y"""
    for _ in range(50):
        for m, c in p.items():
            hit = None
            for a in m:
                if a[0] != "Div":
                    continue
                y = unkey(a[2])
                rest = list(m)
                rest.remove(a)
                if set(y) == {()}:
                    if y[()] and c % y[()] == 0:
                        hit = (a, rest, c // y[()])
                elif len(y) == 1 and list(y.values()) == [1]:
                    ym = list(list(y)[0])
                    r2 = list(rest)
                    try:
                        for z in ym:
                            r2.remove(z)
                    except ValueError:
                        continue
                    hit = (a, r2, c)
                if hit:
                    break
            if hit:
                a, rest, k = hit
                q = dict(p)
                del q[m]
                x = padd(unkey(a[1]), atom(("Rem", a[1], a[2])), -1)
                p = padd(q, pmul(x, {tuple(sorted(rest, key=repr)): k}))
                break
        else:
            return p
    return p


def same(a, b, st=None):
    return a == b or poly(a, st) == poly(b, st)
