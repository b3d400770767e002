"""Value-number terms and their normal forms.

A term is a nested tuple:
  ("i", n)                       integer / bool / char constant (raw unsigned bits)
  ("s", k, hint)                 opaque value number
  ("*", t)                       contents behind pointer t at function entry
  ("f", t, name)                 field of t  ("Some.0": downcast + field)
  ("ix", t, i)                   element
  ("disc", t)                    enum discriminant
  ("ag", type, variant, ((name, term), ...))
  ("ref", (root, path))          address of a place
  ("lin", w, c, ((atom, k), ...))  c + sum k*atom  (mod 2^w)
  ("bin", op, w, a, b) ("un", op, w, a) ("cast", kind, w, signed, a)
  ("cmp", a, b)                  three way comparison (an Ordering)
  ("app", name, args...)         application of a pure, uninterpreted function
  ("dur", ns)                    constant Duration
"""
U64 = (1 << 64) - 1


def I(n):
    return ("i", int(n))


TRUE, FALSE = I(1), I(0)
UNIT = ("ag", "tuple", "", ())


def is_i(t):
    return t[0] == "i"


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def ag(ty, variant, fields):
    fields = tuple(fields)
    # eta: struct rebuilt from all fields of one value
    real = [x for x in fields if not (x[1][0] == "ag" and not x[1][3] and x[1][1].endswith("marker::PhantomData"))] or fields
    if fields and all(v[0] == "f" and v[2] == n for n, v in real):
        base = real[0][1][1]
        if all(v[1] == base for _, v in real) and base[0] != "ag" and ty not in ("tuple",) and not ty.startswith("closure:") and variant == "":
            return base
    return ("ag", ty, variant, fields)


def some(x):
    return ("ag", "std::option::Option", "Some", (("Some.0", x),))


NONE = ("ag", "std::option::Option", "None", ())


def ok(x):
    return ("ag", "std::result::Result", "Ok", (("Ok.0", x),))


def err(x):
    return ("ag", "std::result::Result", "Err", (("Err.0", x),))


def field(t, name):
    if t[0] == "ag":
        for n, v in t[3]:
            if n == name:
                return v
        return ("f", t, name)
    if t[0] == "upd":
        subs = {}
        for p, v in t[2]:
            if p[0] == ("f", name):
                if len(p) == 1:
                    return v
                subs[p[1:]] = v
        b = field(t[1], name)
        return ("upd", b, tuple(sorted(subs.items(), key=repr))) if subs else b
    return ("f", t, name)


def elem(t, i):
    if t[0] == "ag" and t[1] == "array" and is_i(i):
        for n, v in t[3]:
            if n == str(i[1]):
                return v
    if t[0] == "repeat":
        return t[1]
    return ("ix", t, i)


def lin(w, c, d):
    c &= mask(w)
    d = {a: k & mask(w) for a, k in d.items()}
    # 2^s * (x >> s)  is  x with its low s bits cleared
    for a in [a for a in d if a[0] == "bin" and a[1] == "Shr" and a[2] == w and is_i(a[4])]:
        s = a[4][1]
        if d[a] and d[a] % (1 << s) == 0:
            k = d.pop(a) >> s
            x = binop("BitAnd", a[3], I(mask(w) & ~mask(s)), w)
            cx, dx = as_lin(x, w)
            c = (c + k * cx) & mask(w)
            for y, ky in dx.items():
                d[y] = (d.get(y, 0) + k * ky) & mask(w)
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ("lin", w, c, items)


def as_lin(t, w):
    if is_i(t):
        return t[1], {}
    if t[0] == "lin" and t[1] == w:
        return t[2], dict(t[3])
    return 0, {t: 1}


def add(a, b, w, k=1):
    ca, da = as_lin(a, w)
    cb, db = as_lin(b, w)
    d = dict(da)
    for x, y in db.items():
        d[x] = d.get(x, 0) + k * y
    return lin(w, ca + k * cb, d)


def mul(a, b, w):
    if is_i(a):
        a, b = b, a
    if is_i(b):
        c, d = as_lin(a, w)
        return lin(w, c * b[1], {x: y * b[1] for x, y in d.items()})
    a, b = sorted((a, b), key=repr)
    return ("bin", "Mul", w, a, b)


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def boolnot(t):
    if is_i(t):
        return I(1 - (t[1] & 1))
    if t[0] == "not":
        return t[1]
    return ("not", t)


def cmp_const(op, a, b):
    return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]


def compare(op, a, b, w=64, signed=False, flt=False):
    """Boolean term; normal forms eq / lt / le / not."""
    if op == "Ne":
        return boolnot(compare("Eq", a, b, w, signed, flt))
    if op in ("Gt", "Ge"):
        return compare({"Gt": "Lt", "Ge": "Le"}[op], b, a, w, signed, flt)
    if signed and not flt and op in ("Lt", "Le"):
        # the sign of a three way comparison
        for d, n, left in ((a, b, True), (b, a, False)):
            if d[0] == "disc" and d[1][0] == "cmp" and is_i(n):
                k, (u, v) = sgn(n[1], w), d[1][1:3]
                if (left, op, k) in ((True, "Lt", 0), (True, "Le", -1)):
                    return compare("Lt", u, v, 128, flt=True)
                if (left, op, k) in ((True, "Le", 0), (True, "Lt", 1)):
                    return compare("Le", u, v, 128, flt=True)
                if (left, op, k) in ((False, "Lt", 0), (False, "Le", 1)):
                    return compare("Lt", v, u, 128, flt=True)
                if (left, op, k) in ((False, "Le", 0), (False, "Lt", -1)):
                    return compare("Le", v, u, 128, flt=True)
    if is_i(a) and is_i(b) and not flt:
        x, y = a[1], b[1]
        if signed:
            x, y = sgn(x, w), sgn(y, w)
        return I(cmp_const(op, x, y))
    if a[0] == "dur" and b[0] == "dur":
        return I(cmp_const(op, a[1], b[1]))
    if a == b and not flt:
        return I(op in ("Eq", "Le"))
    if flt and op in ("Lt", "Le"):
        # x - y < 0  is  x < y
        if b == I(0) and a[0] == "bin" and a[1] == "Sub" and a[2] == "f":
            return compare(op, a[3], a[4], w, flt=True)
        if a == I(0) and b[0] == "bin" and b[1] == "Sub" and b[2] == "f":
            return compare(op, b[4], b[3], w, flt=True)
    if op == "Eq":
        if w == 8 or True:
            for x, y in ((a, b), (b, a)):
                if y == TRUE and x[0] in ("not", "eq", "lt", "le"):
                    return x
                if y == FALSE and x[0] in ("not", "eq", "lt", "le"):
                    return boolnot(x)
        if is_i(a):
            a, b = b, a
        elif not is_i(b):
            a, b = sorted((a, b), key=repr)
        return ("eq", a, b)
    if not signed and not flt:
        # unsigned: 0 < x  is  x != 0 ;  x < 1 is x == 0
        if op == "Lt" and a == I(0):
            return boolnot(compare("Eq", b, I(0), w))
        if op == "Lt" and b == I(1):
            return compare("Eq", a, I(0), w)
        if op == "Lt" and b == I(0):
            return FALSE
        if op == "Le" and a == I(0):
            return TRUE
        if op == "Le" and a == I(1):
            return boolnot(compare("Eq", b, I(0), w))
        if op == "Le" and b == I(0):
            return compare("Eq", a, I(0), w)
        if op == "Le" and is_i(b) and b[1] < mask(w):
            return ("lt", a, I(b[1] + 1))
        if op == "Le" and is_i(a) and a[1] > 0:
            return ("lt", I(a[1] - 1), b)
    return ("lt" if op == "Lt" else "le", a, b)


def binop(op, a, b, w, signed=False, flt=False):
    """w: width of the operands (0: pointer-ish, treated as 64)."""
    w = w or 64
    op = op.replace("Unchecked", "")
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return compare(op, a, b, w, signed, flt)
    if op == "Cmp":
        return ("cmp", a, b)
    if flt:
        if op == "Sub" and b == I(0):
            return a
        if op in ("Add", "Mul"):
            a, b = sorted((a, b), key=repr)
        return ("bin", op, "f", a, b)
    m = mask(w)
    if is_i(a) and is_i(b):
        x, y = a[1], b[1]
        if op == "Add":
            return I((x + y) & m)
        if op == "Sub":
            return I((x - y) & m)
        if op == "Mul":
            return I((x * y) & m)
        if op in ("Div", "Rem"):
            if y == 0:
                return ("bin", op, w, a, b)
            if signed:
                sx, sy = sgn(x, w), sgn(y, w)
                q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                return I((q if op == "Div" else sx - q * sy) & m)
            return I(x // y if op == "Div" else x % y)
        if op == "BitAnd":
            return I(x & y)
        if op == "BitOr":
            return I(x | y)
        if op == "BitXor":
            return I(x ^ y)
        if op == "Shl":
            return I((x << (y % w)) & m)
        if op == "Shr":
            return I((sgn(x, w) >> (y % w)) & m if signed else x >> (y % w))
    if op == "Add":
        return add(a, b, w)
    if op == "Sub":
        return add(a, b, w, -1)
    if op == "Mul":
        return mul(a, b, w)
    if op == "Shl" and is_i(b):
        return mul(a, I(1 << (b[1] % w)), w)
    if op == "Div" and not signed and is_i(b) and pow2(b[1]):
        op, b = "Shr", I(b[1].bit_length() - 1)
    if op == "Rem" and not signed and is_i(b) and pow2(b[1]):
        op, b = "BitAnd", I(b[1] - 1)
    if op == "Shr" and is_i(b):
        b = I(b[1] % w)
        if b[1] == 0:
            return a
        if a[0] == "bin" and a[1] == "Shr" and a[2] == w and is_i(a[4]) and not signed:
            s = a[4][1] + b[1]
            return I(0) if s >= w else ("bin", "Shr", w, a[3], I(s))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if is_i(a):
            a, b = b, a
        elif not is_i(b):
            a, b = sorted((a, b), key=repr)
        if is_i(b):
            n = b[1]
            if op in ("BitOr", "BitXor") and n and a[0] == "lin" and a[1] == w and all(v % (1 << n.bit_length()) == 0 for v in (a[2], *(k for _, k in a[3]))):
                return add(a, b, w)         # the low bits are free
            if op == "BitAnd":
                if n == 0:
                    return I(0)
                if n == m:
                    return a
                if a[0] == "bin" and a[1] == "BitAnd" and is_i(a[4]):
                    return binop("BitAnd", a[3], I(a[4][1] & n), w)
                if a[0] == "lin" and a[1] == w:
                    low = (~n) & m
                    if pow2(low + 1) and a[2] & low == 0 and a[2]:  # mask clears the low j bits, constant is a multiple of 2^j
                        return add(binop("BitAnd", lin(w, 0, dict(a[3])), b, w), I(a[2]), w)
            elif n == 0:
                return a
            elif op == "BitOr" and a[0] == "bin" and a[1] == "BitOr" and is_i(a[4]):
                return binop("BitOr", a[3], I(a[4][1] | n), w)
        if a == b:
            return I(0) if op == "BitXor" else a
        if op != "BitAnd" and not is_i(b) and possible(a, w) & possible(b, w) == 0:
            return add(a, b, w)             # no bit in common
    return ("bin", op, w, a, b)


def possible(t, w, n=5):
    """the bits t can have"""
    if is_i(t):
        return t[1]
    if n and t[0] == "bin" and is_i(t[4]):
        if t[1] == "BitAnd":
            return possible(t[3], w, n - 1) & t[4][1]
        if t[1] == "Shr":
            return possible(t[3], t[2], n - 1) >> t[4][1]
    if n and t[0] == "lin" and t[1] == w and t[2] == 0 and len(t[3]) == 1 and pow2(t[3][0][1]):
        return possible(t[3][0][0], w, n - 1) * t[3][0][1] & mask(w)
    if t[0] == "app" and t[1] in ("leading_zeros", "trailing_zeros"):
        return 127
    return mask(w)


def unop(op, a, w, signed=False, flt=False, isbool=False):
    if op == "Not":
        if isbool:
            return boolnot(a)
        if is_i(a):
            return I(~a[1] & mask(w))
        if a[0] == "un" and a[1] == "Not":
            return a[3]
        return ("un", "Not", w, a)
    if op == "Neg" and not flt:
        return binop("Sub", I(0), a, w)
    return ("un", op, w, a)


def cast(kind, a, fw, fs, tw, ts):
    if kind == "IntToInt":
        if is_i(a):
            v = sgn(a[1], fw) if fs else a[1]
            return I(v & mask(tw))
        if fw == tw:
            return a
        if tw > fw and a[0] == "cast" and a[1] == "IntToInt" and not fs and not a[3]:
            pass
        return ("cast", "IntToInt" + ("s" if fs else "u") + str(fw), tw, ts, a)
    return ("cast", kind, tw, ts, a)


def atoms(t, out=None):
    """All sub-terms."""
    if out is None:
        out = set()
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                atoms(x, out)
    return out


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t if isinstance(y, tuple))
    return False


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "i":
        return str(t[1])
    if k == "s":
        return "%s#%s" % (t[2], t[1])
    if k == "*":
        return "*" + show(t[1])
    if k == "f":
        return show(t[1]) + "." + t[2]
    if k == "ix":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "disc":
        return "disc(%s)" % show(t[1])
    if k == "ag":
        n = t[1].split("::")[-1] if not t[1].startswith("closure") else "closure"
        n = t[2] or n
        return "%s{%s}" % (n, ", ".join("%s: %s" % (a.split(".")[-1], show(b)) for a, b in t[3]))
    if k == "ref":
        return "&" + showloc(t[1])
    if k == "lin":
        s = [("%s" % show(a) if c == 1 else ("-%s" % show(a) if c == mask(t[1]) else "%d*%s" % (c, show(a)))) for a, c in t[3]]
        c = sgn(t[2], t[1])
        return "(" + " + ".join(s) + (" %+d" % c if c else "") + ")"
    if k == "bin":
        return "(%s %s %s)" % (show(t[3]), t[1], show(t[4]))
    if k in ("lt", "le", "eq"):
        return "(%s %s %s)" % (show(t[1]), {"lt": "<", "le": "<=", "eq": "=="}[k], show(t[2]))
    if k == "not":
        return "!" + show(t[1])
    if k == "app":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if k == "cast":
        return "(%s as %s%s)" % (show(t[4]), "i" if t[3] else "u", t[2])
    if k == "upd":
        return "%s with {%s}" % (show(t[1]), ", ".join(".".join(str(s[1]) if s[0] == "f" else "[%s]" % show(s[1]) for s in p) + "=" + show(v) for p, v in t[2]))
    if k == "guard":
        return "guard(%s)" % showloc(t[1])
    return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:]))


def showloc(loc):
    root, path = loc
    r = {"P": lambda: "*" + show(root[1]), "L": lambda: "local%s" % (root[2],), "G": lambda: root[1], "T": lambda: "new%s" % root[1]}[root[0]]()
    for s in path:
        r += "." + s[1] if s[0] == "f" else "[%s]" % show(s[1])
    return r
