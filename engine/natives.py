"""Models of library operations (std, futures, slab, parking_lot).

Each handler returns a list of (state, value) — one entry per outcome — or None
when it does not apply.  value "panic" ends the path.
"""
import re
from terms import *
from absint import Ev, Program

H = []


def on(rx):
    def deco(f):
        H.append((re.compile(rx), f))
        return f
    return deco


class C:
    """One call being modelled."""
    __slots__ = ("e", "st", "fr", "c", "path", "decl", "a", "ty", "dst", "site", "m")

    def load(self, i=0):
        """Value behind the i-th (reference) argument."""
        return self.e.read(self.st, self.loc(i))

    def loc(self, i=0):
        v = self.a[i]
        if v[0] == "slice":
            return (("S", v), ())
        return self.e.deref(self.st, v)

    def one(self, v):
        return [(self.st, v)]

    def ev(self, k, **d):
        self.st.ev.append(Ev(k, site=self.site, fn=Program.norm(self.fr.body["path"]), **d))

    def fork(self, cond, a, b):
        """a() on the branch where cond holds, b() where it does not."""
        out = []
        s2 = self.st.copy()
        if s2.f.assume(cond, True):
            out.append((s2, a(s2)))
        if self.st.f.assume(cond, False):
            out.append((self.st, b(self.st)))
        return out

    def targ(self, i=0):
        t = self.c.get("targs") or []
        return self.e.p.types[t[i]] if i < len(t) else {"s": "?", "k": "?"}

    def fork_free(self, a, b):
        """Two outcomes nothing decides."""
        s2 = self.st.copy()
        return [(s2, a(s2)), (self.st, b(self.st))]


def native(e, st, fr, callee, path, decl, args, tys, dst, site):
    c = C()
    c.e, c.st, c.fr, c.c, c.path, c.decl, c.a, c.ty, c.dst, c.site = e, st, fr, callee, path, decl, args, tys, dst, site
    for rx, f in e.extra_native.items():
        m = re.search(rx, path)
        if m:
            c.m = m
            r = f(c)
            if r is not None:
                return r
    if any(rx.search(path) for rx in e.opaque):
        return None
    for rx, f in H:
        for p in (path, decl):
            m = rx.search(p)
            if m:
                c.m = m
                r = f(c)
                if r is not None:
                    return r
                break
    return None


# ------------------------------------------------------------------ comparisons
def cmp_kind(c, t):
    """How values of type t compare: 'int','sint','float','term' or None."""
    k = t.get("k")
    while k == "ref":
        t = c.e.p.types[t["t"]]
        k = t.get("k")
    if k in ("int", "uint", "bool", "char"):
        return ("int", t.get("w", 64) if t.get("w", 64) > 0 else 64, k == "int")
    if k == "float":
        return ("float", t["w"], False)
    if t.get("s") == "std::time::Duration":
        return ("term", 128, False)
    if k == "adt" and Program.norm(t["path"]) == "std::Instant":
        return ("term", 128, False) if c.e.instant_native else None
    if k in ("param",) or k == "other" or k == "?":
        return ("term", 128, False)
    return None


def cmp_args(c, t):
    vals = []
    for i in (0, 1):
        v = c.load(i)
        tt = t
        while tt.get("k") == "ref":
            v = c.e.read(c.st, c.e.deref(c.st, v))
            tt = c.e.p.types[tt["t"]]
        vals.append(v)
    return vals


@on(r"^std::cmp::(PartialEq|PartialOrd|Ord)::(eq|ne|lt|le|gt|ge|cmp|partial_cmp|max|min|clamp)$")
def _cmp(c):
    m = re.search(r"^std::cmp::(PartialEq|PartialOrd|Ord)::(\w+)$", c.decl)
    if not m:
        return None
    t = c.targ(0)
    k = cmp_kind(c, t)
    if k is None:
        return None
    op = m.group(2)
    if op in ("max", "min"):
        return minmax(c, op, c.a[0], c.a[1], k)
    if op == "clamp":
        return None
    a, b = cmp_args(c, t)
    if op in ("cmp", "partial_cmp"):
        if k[0] == "int" and k[2]:
            v = ("cmp", a, b)
        else:
            v = ("cmp", a, b)
        if op == "cmp":
            return c.one(v)
        if k[0] == "float":
            return c.fork(("app", "ordered", a, b), lambda s: some(v), lambda s: NONE)
        return c.one(some(v))
    o = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[op]
    return c.one(c.e.fold(c.st, compare(o, a, b, k[1], k[2], k[0] == "float")))


def minmax(c, op, a, b, k):
    # std: max returns the second when equal, min the first
    if k[0] == "float":
        return c.one(("app", op, a, b))
    cond = compare("Le", a, b, k[1], k[2])
    if op == "max":
        return c.fork(cond, lambda s: b, lambda s: a)
    return c.fork(cond, lambda s: a, lambda s: b)


@on(r"^std::cmp::(max|min)$")
def _max(c):
    k = cmp_kind(c, c.targ(0))
    if k is None:
        return None
    return minmax(c, c.path.rsplit("::", 1)[-1], c.a[0], c.a[1], k)


@on(r"std::cmp::Ordering::(is_lt|is_le|is_gt|is_ge|is_eq|is_ne|reverse|then)$|std::cmp::Ordering::(is_lt|is_le|is_gt|is_ge|is_eq|is_ne)")
def _ord(c):
    op = c.path.rsplit("::", 1)[-1]
    v = c.a[0]
    if v[0] != "cmp":
        return None
    a, b = v[1], v[2]
    if op == "reverse":
        return c.one(("cmp", b, a))
    if op == "then":
        return None
    o = {"is_lt": "Lt", "is_le": "Le", "is_gt": "Gt", "is_ge": "Ge", "is_eq": "Eq", "is_ne": "Ne"}[op]
    return c.one(c.e.fold(c.st, compare(o, a, b, 128, flt=True)))


# ------------------------------------------------------------------ Instant (as an ordered type with + and -)
@on(r"^std::Instant::now$")
def _now(c):
    if not c.e.instant_native:
        return None
    v = c.e.fresh("now")
    c.ev("now", ret=v)
    return c.one(v)


@on(r"^<std::Instant as std::ops::Sub>::sub$")
def _idiff(c):
    if not c.e.instant_native:
        return None
    return c.one(("app", "idiff", c.a[0], c.a[1]))


@on(r"^<std::Instant as std::ops::(Add|Sub|AddAssign|SubAssign)<([^>]*)>>::")
def _iop(c):
    if not c.e.instant_native:
        return None
    op, rhs = re.search(r"^<std::Instant as std::ops::(Add|Sub|AddAssign|SubAssign)<([^>]*)>>::", c.path).groups()
    if op.endswith("Assign"):
        x = c.load(0)
        nm = "iadd" if op == "AddAssign" else "isub"
        c.ev("partial", op=nm, args=[x, c.a[1]])
        c.e.write(c.st, c.loc(0), iarith(nm, x, c.a[1]), c.site)
        return c.one(UNIT)
    if rhs == "std::time::Duration":
        nm = "iadd" if op == "Add" else "isub"
        c.ev("partial", op=nm, args=list(c.a))
        return c.one(iarith(nm, c.a[0], c.a[1]))
    return c.one(("app", "idiff", c.a[0], c.a[1]))


def iarith(op, x, d):
    if d == ("dur", 0):
        return x
    return ("app", op, x, d)


@on(r"^std::Instant::(duration_since|checked_duration_since|saturating_duration_since|checked_add|checked_sub|elapsed)$")
def _ifn(c):
    if not c.e.instant_native:
        return None
    op = c.path.rsplit("::", 1)[-1]
    x = c.load(0)
    if op in ("duration_since", "saturating_duration_since"):
        return c.one(("app", "idiff", x, c.a[1]))
    if op == "elapsed":
        v = c.e.fresh("now")
        c.ev("now", ret=v)
        return c.one(("app", "idiff", v, x))
    if op == "checked_duration_since":
        return c.fork(("le", c.a[1], x), lambda s: some(("app", "idiff", x, c.a[1])), lambda s: NONE)
    nm = "iadd" if op == "checked_add" else "isub"
    return c.fork(("app", nm + "_fits", x, c.a[1]), lambda s: some(iarith(nm, x, c.a[1])), lambda s: NONE)


# ------------------------------------------------------------------ Duration
UNITS = {"nanos": 1, "micros": 10**3, "millis": 10**6, "secs": 10**9}


@on(r"^std::time::Duration::from_(nanos|micros|millis|secs)$")
def _from(c):
    u = c.m.group(1)
    x = c.a[0]
    if is_i(x):
        return c.one(("dur", x[1] * UNITS[u]))
    return c.one(("app", "from_" + u, x))


@on(r"^std::time::Duration::new$")
def _dnew(c):
    a, b = c.a
    if is_i(a) and is_i(b):
        return c.one(("dur", a[1] * 10**9 + b[1]))
    if b == I(0):
        return c.one(("app", "from_secs", a))
    return c.one(("app", "dur_new", a, b))


@on(r"^std::time::Duration::(as_secs|as_millis|as_micros|as_nanos|subsec_millis|subsec_micros|subsec_nanos|is_zero|as_secs_f64|as_secs_f32)$")
def _as(c):
    op = c.m.group(1)
    x = c.load(0)
    if x[0] == "dur":
        n = x[1]
        v = {"as_secs": n // 10**9, "as_millis": n // 10**6, "as_micros": n // 1000, "as_nanos": n, "subsec_millis": n % 10**9 // 10**6,
             "subsec_micros": n % 10**9 // 1000, "subsec_nanos": n % 10**9, "is_zero": int(n == 0)}.get(op)
        if v is not None:
            return c.one(I(v))
    if op == "is_zero":
        return c.one(c.e.fold(c.st, compare("Eq", x, ("dur", 0), 128)))
    return c.one(("app", op, x))


@on(r"::equality::SpecArrayEq(<.*>)?>?::spec_eq$")
def _arreq(c):
    """bytes compared with a constant array of bytes"""
    a, b = (c.load(0), c.load(1))
    if b[0] != "ag" or not all(is_i(v) for _, v in b[3]):
        a, b = b, a
    if b[0] != "ag" or not all(is_i(v) for _, v in b[3]):
        return None
    yes, out = c.st.copy(), []
    if all(yes.f.set_const(("ix", a, I(i)), v[1]) for i, (_, v) in enumerate(b[3])):
        out.append((yes, I(1)))
    for i, (_, v) in enumerate(b[3]):
        s = c.st.copy()
        if all(s.f.set_const(("ix", a, I(j)), w[1]) for j, (_, w) in enumerate(b[3][:i])) and s.f.set_ne(("ix", a, I(i)), v[1]):
            out.append((s, I(0)))
    return out


@on(r"^<std::time::Duration as std::ops::(AddAssign|SubAssign|MulAssign|DivAssign|Add|Sub|Mul|Div)\b")
def _dop(c):
    op = c.m.group(1)
    if op.endswith("Assign"):
        x = c.load(0)
        nm = "d" + op[:-6].lower()
        c.ev("partial", op=nm, args=[x, c.a[1]])
        c.e.write(c.st, c.loc(0), ("app", nm, x, c.a[1]), c.site)
        return c.one(UNIT)
    c.ev("partial", op="d" + op.lower(), args=list(c.a))
    return c.one(("app", "d" + op.lower(), c.a[0], c.a[1]))


@on(r"^std::time::Duration::(checked|saturating)_(add|sub|mul|div)$")
def _dch(c):
    mode, op = c.m.groups()
    t = ("app", "d" + op, c.a[0], c.a[1])
    if mode == "checked":
        if op == "sub":
            return c.fork(compare("Le", c.a[1], c.a[0], 128), lambda s: some(t), lambda s: NONE)
        return c.fork(("app", "d" + op + "_fits", c.a[0], c.a[1]), lambda s: some(t), lambda s: NONE)
    if op == "sub":
        return c.fork(compare("Le", c.a[1], c.a[0], 128), lambda s: t, lambda s: ("dur", 0))
    return c.one(("app", "dsat_" + op, c.a[0], c.a[1]))


@on(r"^<std::time::Duration as std::default::Default>::default$")
def _dd(c):
    return c.one(("dur", 0))


@on(r"^<std::time::Duration as std::clone::Clone>::clone$|^<std::Instant as std::clone::Clone>::clone$")
def _dcl(c):
    return c.one(c.load(0))


# ------------------------------------------------------------------ integers
def int_of(c):
    m = re.search(r"<impl ([iu])(\d+|size)>", c.path)
    if not m:
        return None
    w = 64 if m.group(2) == "size" else int(m.group(2))
    return w, m.group(1) == "i"


@on(r"^core::num::<impl [iu](\d+|size)>::(\w+)$")
def _int(c):
    w, s = int_of(c)
    m = c.m
    op = c.path.rsplit("::", 1)[-1]
    a = c.a
    if op in ("leading_zeros", "trailing_zeros", "count_ones", "leading_ones", "trailing_ones"):
        if is_i(a[0]):
            n = a[0][1]
            v = {"leading_zeros": w - n.bit_length(), "trailing_zeros": (n & -n).bit_length() - 1 if n else w, "count_ones": bin(n).count("1")}.get(op)
            if v is not None:
                return c.one(I(v))
        return c.one(("app", op, I(w), a[0]))
    if op == "ilog2" and not s:
        if is_i(a[0]) and a[0][1] > 0:
            return c.one(I(a[0][1].bit_length() - 1))
        lz = lambda st: binop("Sub", I(w - 1), ("app", "leading_zeros", I(w), a[0]), 32)
        if a[0][0] == "bin" and a[0][1] == "BitOr" and is_i(a[0][4]) and a[0][4][1] > 0:
            return c.one(lz(c.st))
        return c.fork(compare("Eq", a[0], I(0), w), lambda st: "panic", lz)
    if op in ("rotate_right", "rotate_left"):
        return c.one(("app", op, I(w), a[0], a[1]))
    if op == "pow" or op == "wrapping_pow":
        tw = 32 if m.group(1) == "size" else w
        if is_i(a[0]) and is_i(a[1]) and a[0][1] ** a[1][1] <= mask(tw):
            return c.one(I(a[0][1] ** a[1][1]))
        if op == "pow" and c.site.startswith("src/"):
            c.ev("ovf", op="Pow", cond=("not", ("app", "overflow", ("str", "Pow"), a[0], a[1], I(tw), I(int(s)))), facts=c.st.f.copy())
        return c.one(("app", "pow", I(w), a[0], a[1]))
    m = re.match(r"(wrapping|unchecked)_(add|sub|mul|shl|shr|rem|div|neg)$", op)
    if m:
        o = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "rem": "Rem", "div": "Div"}.get(m.group(2))
        if o is None:
            return c.one(unop("Neg", a[0], w))
        return c.one(c.e.fold(c.st, binop(o, a[0], a[1], w, s)))
    m = re.match(r"checked_(add|sub|mul|rem|div)$", op)
    if m and not s:
        o = m.group(1)
        t = binop({"add": "Add", "sub": "Sub", "mul": "Mul", "rem": "Rem", "div": "Div"}[o], a[0], a[1], w)
        if o == "sub":
            return c.fork(compare("Le", a[1], a[0], w), lambda st: some(t), lambda st: NONE)
        if o in ("rem", "div"):
            return c.fork(compare("Eq", a[1], I(0), w), lambda st: NONE, lambda st: some(t))
        return c.fork(("app", "int_%s_fits" % o, a[0], a[1]), lambda st: some(t), lambda st: NONE)
    m = re.match(r"saturating_(add|sub|mul)$", op)
    if m:
        o = m.group(1)
        if o == "sub" and not s:
            return c.fork(compare("Le", a[1], a[0], w), lambda st: binop("Sub", a[0], a[1], w), lambda st: I(0))
        if is_i(a[0]) and is_i(a[1]) and not s:
            x, y = a[0][1], a[1][1]
            return c.one(I(max(0, min(mask(w), {"add": x + y, "sub": x - y, "mul": x * y}[o]))))
        x, y = a
        if o != "sub":
            x, y = sorted((x, y), key=repr)
        return c.one(("app", "sat_" + o, I(w), x, y))
    if op in ("is_power_of_two",):
        return c.one(("app", op, a[0]))
    if op in ("div_euclid", "rem_euclid", "div_ceil", "midpoint") and not s and is_i(a[1]) and a[1][1]:
        if op == "div_ceil":
            if a[1][1] & (a[1][1] - 1):
                return c.one(("app", op, a[0], a[1]))
            q = binop("Div", a[0], a[1], w)
            return c.fork(compare("Eq", binop("Rem", a[0], a[1], w), I(0), w), lambda st: q, lambda st: binop("Add", q, I(1), w))
        if op != "midpoint":
            return c.one(binop("Div" if op[0] == "d" else "Rem", a[0], a[1], w))
    return None


@on(r"^core::f64::<impl f64>::(\w+)$|^core::num::<impl f64>::(\w+)$|^std::f64::<impl f64>::(\w+)$")
def _flt(c):
    return c.one(("app", "f64_" + c.path.rsplit("::", 1)[-1]) + tuple(c.a))


PRIM = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "u128": (128, False), "usize": (64, False),
        "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "i128": (128, True), "isize": (64, True)}


@on(r"std::convert::num::.*<impl std::convert::(From|TryFrom)<(\w+)> for (\w+)>::(from|try_from)$")
def _conv(c):
    tr, src, dst = re.search(r"<impl std::convert::(From|TryFrom)<(\w+)> for (\w+)>", c.path).groups()
    return conv(c, tr == "TryFrom", src, dst, c.a[0])


def conv(c, tr, src, dst, x):
    if src not in PRIM or dst not in PRIM:
        if tr or src != "bool":
            return None
        return c.fork(x, lambda s: I(1), lambda s: I(0))
    (sw, ss), (dw, ds) = PRIM[src], PRIM[dst]
    t = cast("IntToInt", x, sw, ss, dw, ds)
    if not tr:
        return c.one(t)
    mx = mask(dw) >> (1 if ds else 0)
    E_ = err(("zst", "TryFromIntError"))
    if is_i(x) and not ss:
        return c.one(ok(t) if x[1] <= mx else E_)
    return c.fork(compare("Le", x, I(mx), 128), lambda s: ok(t), lambda s: E_)


@on(r"^std::convert::(Into::into|TryInto::try_into|From::from|TryFrom::try_from)$")
def _into(c):
    # integer conversions through the blanket impls
    a, b = c.targ(0), c.targ(1)
    d = c.decl
    if "Into" in d:
        src, dst = a.get("s"), b.get("s")
    else:
        src, dst = b.get("s"), a.get("s")
    if src in PRIM and dst in PRIM:
        return conv(c, "Try" in d, src, dst, c.a[0])
    if src == dst and "Try" not in d:
        return c.one(c.a[0])
    return None


# ------------------------------------------------------------------ mem, ptr
@on(r"^std::mem::swap$|^std::ptr::swap$")
def _swap(c):
    l0, l1 = c.loc(0), c.loc(1)
    x, y = c.e.read(c.st, l0), c.e.read(c.st, l1)
    c.e.write(c.st, l0, y, c.site)
    c.e.write(c.st, l1, x, c.site)
    return c.one(UNIT)


@on(r"^std::mem::replace$")
def _replace(c):
    l0 = c.loc(0)
    x = c.e.read(c.st, l0)
    c.e.write(c.st, l0, c.a[1], c.site)
    return c.one(x)


@on(r"^std::option::Option::<T>::take$")
def _otake(c):
    l0 = c.loc(0)
    x = c.e.read(c.st, l0)
    c.e.write(c.st, l0, NONE, c.site)
    return c.one(x)


@on(r"^std::option::Option::<T>::replace$")
def _orepl(c):
    l0 = c.loc(0)
    x = c.e.read(c.st, l0)
    c.e.write(c.st, l0, some(c.a[1]), c.site)
    return c.one(x)


@on(r"^std::option::Option::<T>::(as_ref|as_mut|as_pin_mut|as_pin_ref)$")
def _oref(c):
    l0 = c.loc(0)
    v = c.e.read(c.st, l0)
    pay = c.e.ref(c.e.step(l0, ("f", "Some.0")))
    if v[0] == "ag":
        return c.one(some(pay) if v[2] == "Some" else NONE)
    d = ("disc", v)
    k = c.st.f.const(d)
    if k is not None:
        return c.one(some(pay) if k else NONE)
    out = []
    s2 = c.st.copy()
    if s2.f.set_const(d, 1):
        s2.ev.append(Ev("branch", cond=d, val=1, site=c.site))
        out.append((s2, some(pay)))
    if c.st.f.set_const(d, 0):
        c.st.ev.append(Ev("branch", cond=d, val=0, site=c.site))
        out.append((c.st, NONE))
    return out


@on(r"^std::mem::take$")
def _take(c):
    t = c.targ(0)
    if t.get("k") == "adt" and t["path"] == "std::option::Option":
        return _otake(c)
    return None


@on(r"^std::mem::(drop|forget)$")
def _mdrop(c):
    if c.path.endswith("drop"):
        t = c.targ(0)
        if t.get("drop"):
            c.e.drop_value(c.st, c.a[0], t, c.site)
    else:
        c.ev("forget", val=c.a[0])
    return c.one(UNIT)


@on(r"^std::mem::ManuallyDrop::<.*>::(new|into_inner)$")
def _mandrop(c):
    c.ev("forget" if c.path.endswith("new") else "unforget", val=c.a[0])
    return c.one(c.a[0])


@on(r"^<std::mem::ManuallyDrop<.*> as std::ops::(Deref|DerefMut)>::")
def _mandrop2(c):
    return c.one(c.a[0])


@on(r"^std::ptr::(null_mut|null)$")
def _null(c):
    return c.one(I(0))


@on(r"^std::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(\w+)$")
def _ptr(c):
    op = c.path.rsplit("::", 1)[-1]
    if op == "is_null":
        return c.one(c.e.fold(c.st, compare("Eq", c.a[0], I(0))))
    if op in ("cast", "cast_mut", "cast_const"):
        return c.one(c.a[0])
    if op in ("wrapping_add", "add", "wrapping_sub", "sub", "wrapping_byte_add", "byte_add", "offset", "wrapping_offset"):
        return c.one(("app", "ptr_" + op.replace("wrapping_", ""), c.a[0], c.a[1]))
    return None


# ------------------------------------------------------------------ pointers
@on(r"^<(std::sync::Arc|std::rc::Rc|std::boxed::Box)<.*> as std::ops::(Deref|DerefMut)>::")
def _arcderef(c):
    return c.one(c.load(0))


@on(r"^<&(mut )?T as std::ops::(Deref|DerefMut)>::")
def _refderef(c):
    return c.one(c.load(0))


@on(r"^<std::pin::Pin<.*> as std::ops::(Deref|DerefMut)>::|^std::pin::Pin::<.*>::(as_mut|as_ref|as_deref_mut)$")
def _pinderef(c):
    return c.one(c.load(0))


@on(r"^std::pin::Pin::<.*>::(new|new_unchecked|get_mut|get_ref|get_unchecked_mut|into_inner|into_ref|static_ref)$|^std::pin::Pin::<Ptr>::into_inner_unchecked$|^std::boxed::Box::<.*>::into_pin$")
def _pinid(c):
    return c.one(c.a[0])


@on(r"^std::pin::Pin::<.*>::set$")
def _pinset(c):
    p = c.load(0)
    c.e.write(c.st, c.e.deref(c.st, p), c.a[1], c.site)
    return c.one(UNIT)


def alloc(c, v):
    n = next(c.e.fresh_n)
    c.st.mem[(("T", n), ())] = v
    return ("ref", (("T", n), ()))


@on(r"^std::(sync::Arc|rc::Rc|boxed::Box)::<.*>::(new|pin)$")
def _arcnew(c):
    return c.one(alloc(c, c.a[0]))


@on(r"^<std::(sync::Arc|rc::Rc)<.*> as std::clone::Clone>::clone$")
def _arcclone(c):
    v = c.load(0)
    c.ev("arc_clone", val=v)
    return c.one(v)


@on(r"^<std::(sync|rc)::Weak<.*> as std::clone::Clone>::clone$")
def _weakclone(c):
    v = c.load(0)
    c.ev("weak_clone", val=v)
    return c.one(v)


@on(r"^std::sync::(Arc|Weak)::<.*>::(into_raw|from_raw)$")
def _raw(c):
    k = re.search(r"::(Arc|Weak)::<.*>::(into_raw|from_raw)$", c.path).groups()
    c.ev(k[1], kind=k[0], val=c.a[0])
    if k == ("Arc", "into_raw") and c.a[0][0] != "ag":
        c.st.f.set_ne(c.a[0], 0)
    return c.one(c.a[0])


@on(r"^std::sync::(Arc)::<.*>::(increment|decrement)_strong_count$")
def _strong(c):
    if "increment" in c.path:
        c.ev("arc_clone", val=c.a[0])
        c.ev("forget", val=c.a[0])
    else:
        c.ev("from_raw", kind="Arc", val=c.a[0])
        c.ev("drop", ty="std::sync::Arc<?>", val=c.a[0])
    return c.one(UNIT)


@on(r"^std::sync::Weak::<.*>::as_ptr$|^std::sync::Arc::<.*>::as_ptr$")
def _asptr(c):
    return c.one(c.load(0))


@on(r"^std::sync::Arc::<.*>::downgrade$")
def _down(c):
    return c.one(("app", "weak", c.load(0)))


@on(r"^std::sync::Arc::<.*>::ptr_eq$")
def _ptreq(c):
    return c.one(c.e.fold(c.st, compare("Eq", c.load(0), c.load(1))))


@on(r"^std::sync::Arc::<.*>::(strong_count|weak_count)$")
def _cnt(c):
    v = c.e.fresh("strong_count")
    c.ev("count", val=c.load(0), ret=v)
    return c.one(v)


@on(r"^std::sync::Weak::<.*>::upgrade$")
def _up(c):
    w = c.load(0)
    x = w[2] if w[0] == "app" and w[1] == "weak" else ("app", "up", w)
    cond = ("app", "alive", w, ("i", next(c.e.fresh_n)))
    c.ev("upgrade", val=w, cond=cond)
    return c.fork(cond, lambda s: some(x), lambda s: NONE)


# ------------------------------------------------------------------ locks, atomics
@on(r"^std::sync::Mutex::<.*>::new$|^parking_lot::lock_api::Mutex::<.*>::new$|^std::sync::RwLock::<.*>::new$")
def _mnew(c):
    return c.one(("ag", "Mutex", "", (("$data", c.a[0]),)))


def lockty(c):
    t = c.c.get("targs") or []
    return c.e.p.tname(t[-1]) if t else "?"


@on(r"^(std::sync|parking_lot::lock_api)::(Mutex|RwLock)::<.*>::(lock|read|write|try_lock|try_read|try_write)$")
def _lock(c):
    loc = c.e.step(c.loc(0), ("f", "$data"))
    tried = c.path.rsplit("::", 1)[-1].startswith("try_")
    std = c.path.startswith("std::sync")
    out = []
    if tried:
        s2 = c.st.copy()
        s2.ev.append(Ev("lock_busy", loc=loc, site=c.site))
        out.append((s2, err(c.e.fresh("busy")) if std else NONE))
    n = next(c.e.fresh_n)
    if loc[0][0] != "T":
        c.e.write(c.st, loc, c.e.fresh("locked"), c.site, log=False)
    c.ev("lock", loc=loc, n=n, val=c.e.read(c.st, loc), ty=lockty(c), tried=tried)
    g = ("guard", loc, n)
    out.append((c.st, ok(g) if std else some(g) if tried else g))
    return out


@on(r"^parking_lot::lock_api::(Mutex|RwLock)::<.*>::is_locked$")
def _is_locked(c):
    loc = c.e.step(c.loc(0), ("f", "$data"))
    r = c.e.fresh("is_locked")
    c.ev("is_locked", loc=loc, ret=r, ty=lockty(c))
    return c.one(r)


@on(r"^(std::sync|parking_lot::lock_api)::(Mutex|RwLock)::<.*>::(get_mut|into_inner)$")
def _lock_mut(c):
    std = c.path.startswith("std::sync")
    if c.path.endswith("get_mut"):
        v = c.e.ref(c.e.step(c.loc(0), ("f", "$data")))
    else:
        v = field(c.a[0], "$data")
    return c.one(ok(v) if std else v)


@on(r"^<(std::sync|parking_lot::lock_api)::(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<.*> as std::ops::(Deref|DerefMut)>::")
def _guard(c):
    g = c.load(0)
    if g[0] == "guard":
        return c.one(c.e.ref(g[1]))
    return None


def atomic_loc(c):
    return c.e.step(c.loc(0), ("f", "$v"))


@on(r"^std::sync::atomic::Atomic::<.*>::(\w+)$")
def _atomic(c):
    op = c.path.rsplit("::", 1)[-1]
    ty = re.search(r"Atomic::<(.*)>::\w+$", c.path).group(1)
    if op == "new":
        return c.one(("ag", "Atomic", "", (("$v", c.a[0]),)))
    if op in ("get_mut", "as_ptr"):
        return c.one(c.e.ref(atomic_loc(c)))
    if op == "into_inner":
        return c.one(field(c.a[0], "$v"))
    if op in ("fetch_update", "try_update", "update"):
        return None     # followed: a load and a compare-exchange loop
    return atomic_op(c, op, ty, c.loc(0))


@on(r"^<std::sync::atomic::Atomic<.*> as std::convert::From<.*>>::from$")
def _atomic_from(c):
    return c.one(("ag", "Atomic", "", (("$v", c.a[0]),)))


ATOMIC_FREE = {"atomic_load": "load", "atomic_store": "store", "atomic_swap": "swap", "atomic_compare_exchange": "compare_exchange", "atomic_compare_exchange_weak": "compare_exchange_weak",
               "atomic_add": "fetch_add", "atomic_sub": "fetch_sub", "atomic_and": "fetch_and", "atomic_or": "fetch_or", "atomic_xor": "fetch_xor", "atomic_umax": "fetch_max", "atomic_umin": "fetch_min"}


@on(r"^std::sync::atomic::(atomic_\w+)$")
def _atomic_free(c):
    """what the methods of Atomic<T> call; seen where std's own code was inlined"""
    op = ATOMIC_FREE.get(c.m.group(1))
    if op is None or c.a[0][0] != "ref":
        return None
    root, path = c.a[0][1]
    if not path or path[-1] != ("f", "v"):
        return None
    ty = c.e.p.tname(c.c["targs"][0]) if c.c.get("targs") else "usize"
    return atomic_op(c, op, ty, (root, path[:-1]))


def atomic_op(c, op, ty, owner):
    loc = owner
    ords = [a[2] for a in c.a if a[0] == "ag" and a[1].endswith("atomic::Ordering")]
    if op == "load":
        r = c.e.fresh("load")
        c.ev("atomic", op="load", loc=loc, ret=r, ty=ty, ords=ords)
        return c.one(r)
    c.st.wr.add((loc[0], loc[1] + (("f", "$v"),)))
    if op == "store":
        c.ev("atomic", op="store", loc=loc, val=c.a[1], ret=UNIT, ty=ty, ords=ords)
        return c.one(UNIT)
    if op in ("compare_exchange", "compare_exchange_weak"):
        r = c.e.fresh("cas")
        okc = ("app", "cas_ok", r)
        out = []
        s2 = c.st.copy()
        s2.f.eq[okc] = 1
        s2.ev.append(Ev("atomic", op="cas", loc=loc, old=c.a[1], val=c.a[2], ret=r, ty=ty, success=True, weak=op.endswith("weak"), ords=ords, site=c.site, fn=Program.norm(c.fr.body["path"])))
        out.append((s2, ok(c.a[1])))
        c.st.f.eq[okc] = 0
        c.ev("atomic", op="cas", loc=loc, old=c.a[1], val=c.a[2], ret=r, ty=ty, success=False, weak=op.endswith("weak"), ords=ords)
        # a strong compare-and-swap fails only on another value
        if op == "compare_exchange_weak" or c.st.f.assume(compare("Eq", r, c.a[1]), False):
            out.append((c.st, err(r)))
        return out
    if ty == "bool" and (op, c.st.f.const(c.a[1])) in (("fetch_or", 1), ("fetch_and", 0)):
        op = "swap"
    if op == "swap" or op.startswith("fetch_"):
        r = c.e.fresh(op)
        c.ev("atomic", op=op, loc=loc, val=c.a[1], ret=r, ty=ty, ords=ords)
        return c.one(r)
    return None


# ------------------------------------------------------------------ tasks
@on(r"^std::task::Context::<'a>::waker$")
def _waker(c):
    cx = c.a[0]
    if cx[0] == "ref":
        v = c.load(0)
        if v[0] == "app" and v[1] == "ctx":
            return c.one(v[2])
    return c.one(("app", "waker", cx))


@on(r"^std::task::Context::<'a>::from_waker$")
def _ctx(c):
    return c.one(("app", "ctx", c.a[0]))


@on(r"^<std::task::Waker as std::clone::Clone>::clone$")
def _wclone(c):
    v = c.a[0]
    if v[0] == "ref":
        v = c.load(0)
    return c.one(("app", "wclone", v))


@on(r"^<std::task::Waker as std::clone::Clone>::clone_from$")
def _wclonefrom(c):
    """leaves a waker of the same task as the source's: the old one when that wakes it already"""
    c.e.write(c.st, c.loc(0), ("app", "wclone", wk(c, 1)), c.site)
    return c.one(UNIT)


@on(r"^std::task::Waker::(wake|wake_by_ref)$")
def _wake(c):
    v = c.a[0]
    if v[0] == "ref":
        v = c.load(0)
    for e in reversed(c.st.ev):
        if e.k == "take_waker" and v == ("f", e.ret, "Some.0"):
            c.ev("wake_task", loc=e.loc)
            return c.one(UNIT)
    c.ev("wake", val=v)
    return c.one(UNIT)


@on(r"^std::task::Waker::will_wake$")
def _will(c):
    return c.one(("app", "will_wake", wk(c, 0), wk(c, 1)))


def wk(c, i):
    v = c.a[i]
    return c.load(i) if v[0] == "ref" else v


@on(r"AtomicWaker::(new|register|wake|take)$")
def _aw(c):
    op = c.path.rsplit("::", 1)[-1]
    if op == "new":
        return c.one(("ag", "AtomicWaker", "", ()))
    loc = c.loc(0)
    if op == "register":
        c.ev("register", loc=loc, waker=wk(c, 1))
        return c.one(UNIT)
    if op == "wake":
        c.ev("wake_task", loc=loc)
        return c.one(UNIT)
    # what was registered, or nothing: waking that wakes the task, having nothing to wake is the same as waking
    r = c.e.fresh("taken_waker")
    c.ev("take_waker", loc=loc, ret=r)

    def none(s):
        s.ev.append(Ev("wake_task", loc=loc, nothing=True, site=c.site))
        return NONE
    return c.fork(("disc", r), lambda s: some(("f", r, "Some.0")), none)


@on(r"^futures::task::waker$")
def _wof(c):
    return c.one(("app", "waker_of", c.a[0]))


# ------------------------------------------------------------------ Vec and slices
def sl(c, i=0):
    """(base location, offset, length) of a vector or slice argument."""
    v = c.a[i]
    if v[0] == "slice":
        return v[1], v[2], v[3]
    loc = c.e.deref(c.st, v)
    # &Vec behind another reference is handled by the caller's deref
    return loc, I(0), c.e.vec_len(c.st, loc)


def eloc(loc, off, i):
    return (loc[0], loc[1] + (("i", binop("Add", i, off, 64)),))


@on(r"^std::vec::Vec::<.*>::(new|with_capacity)$")
def _vnew(c):
    return c.one(("ag", "Vec", "", (("$len", I(0)),)))


@on(r"^<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::|^std::vec::Vec::<.*>::(as_slice|as_mut_slice)$|^<std::vec::Vec<.*> as std::convert::(AsRef|AsMut)<")
def _vderef(c):
    return c.one(c.a[0])


@on(r"^(std::vec::Vec::<.*>|core::slice::<impl \[T\]>)::(len|is_empty)$")
def _vlen(c):
    loc, off, ln = sl(c)
    if c.path.endswith("len"):
        return c.one(ln)
    return c.one(c.e.fold(c.st, compare("Eq", ln, I(0))))


@on(r"^<(std::vec::Vec<.*>|\[T\]) as std::ops::(Index|IndexMut)<.*>>::|^core::slice::index::<impl std::ops::(Index|IndexMut)<I> for \[T\]>::|^core::array::<impl std::ops::(Index|IndexMut)<I> for \[T; N\]>::|^<\[T; N\] as std::ops::(Index|IndexMut)<")
def _vindex(c):
    it = c.e.p.types[c.ty[1]] if c.ty[1] is not None else {}
    if it.get("s") != "usize":
        return None
    loc, off, ln = sl(c)
    i = c.a[1]
    c.ev("bounds", cond=compare("Lt", i, ln), idx=i, len=ln, known=c.st.f.truth(compare("Lt", i, ln)), facts=c.st.f.copy())
    c.st.f.assume(compare("Lt", i, ln), True)
    return c.one(("ref", eloc(loc, off, i)))


@on(r"^core::slice::<impl \[T\]>::(get|get_mut|first|first_mut|last|last_mut)$")
def _vget(c):
    op = c.path.rsplit("::", 1)[-1]
    loc, off, ln = sl(c)
    if op.startswith("get"):
        it = c.e.p.types[c.ty[1]] if c.ty[1] is not None else {}
        if it.get("s") != "usize":
            return None
        i = c.a[1]
    elif op.startswith("first"):
        i = I(0)
    else:
        i = binop("Sub", ln, I(1), 64)
    cond = compare("Lt", i, ln) if not op.startswith("last") else boolnot(compare("Eq", ln, I(0)))
    return c.fork(cond, lambda s: some(("ref", eloc(loc, off, i))), lambda s: NONE)


@on(r"^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
def _vgu(c):
    loc, off, ln = sl(c)
    return c.one(("ref", eloc(loc, off, c.a[1])))


@on(r"^core::slice::<impl \[T\]>::(split_at_mut|split_at)$")
def _split(c):
    loc, off, ln = sl(c)
    k = c.a[1]
    c.ev("bounds", cond=compare("Le", k, ln), idx=k, len=ln, known=c.st.f.truth(compare("Le", k, ln)), facts=c.st.f.copy())
    a = ("slice", loc, off, k)
    b = ("slice", loc, binop("Add", off, k, 64), binop("Sub", ln, k, 64))
    return c.one(("ag", "tuple", "", (("0", a), ("1", b))))


@on(r"^core::slice::<impl \[T\]>::swap$")
def _vswap(c):
    loc, off, ln = sl(c)
    for i in c.a[1:3]:
        t = compare("Lt", i, ln)
        c.ev("bounds", cond=t, idx=i, len=ln, known=c.st.f.truth(t), facts=c.st.f.copy())
        c.st.f.assume(t, True)
    l0, l1 = eloc(loc, off, c.a[1]), eloc(loc, off, c.a[2])

    def other(st):
        x, y = c.e.read(st, l0), c.e.read(st, l1)
        c.e.write(st, l0, y, c.site)
        c.e.write(st, l1, x, c.site)
        return UNIT
    return c.fork(compare("Eq", c.a[1], c.a[2]), lambda st: UNIT, other)


@on(r"^std::vec::Vec::<.*>::push$")
def _vpush(c):
    loc, off, ln = sl(c)
    c.e.write(c.st, eloc(loc, off, ln), c.a[1], c.site)
    setlen(c, c.st, loc, binop("Add", ln, I(1), 64))
    c.ev("vec_push", loc=loc, idx=ln, val=c.a[1])
    return c.one(UNIT)


def setlen(c, st, loc, n):
    c.e.write(st, c.e.step(loc, ("f", "$len")), n, c.site, log=False)


@on(r"^std::vec::Vec::<.*>::pop$")
def _vpop(c):
    loc, off, ln = sl(c)

    def yes(s):
        i = binop("Sub", ln, I(1), 64)
        v = c.e.read(s, eloc(loc, off, i))
        setlen(c, s, loc, i)
        s.ev.append(Ev("vec_pop", loc=loc, idx=i, val=v, site=c.site))
        return some(v)
    return c.fork(boolnot(compare("Eq", ln, I(0))), yes, lambda s: NONE)


@on(r"^std::vec::Vec::<.*>::swap_remove$")
def _vsr(c):
    loc, off, ln = sl(c)
    i = c.a[1]
    last = binop("Sub", ln, I(1), 64)
    t = compare("Lt", i, ln)
    c.ev("bounds", cond=t, idx=i, len=ln, known=c.st.f.truth(t), facts=c.st.f.copy())
    c.st.f.assume(t, True)
    c.st.f.assume(compare("Le", i, last), True)
    v = c.e.read(c.st, eloc(loc, off, i))
    w = c.e.read(c.st, eloc(loc, off, last))
    c.e.write(c.st, eloc(loc, off, i), w, c.site)
    setlen(c, c.st, loc, last)
    c.ev("swap_remove", loc=loc, idx=i, val=v, last=w)
    return c.one(v)


@on(r"^std::vec::Vec::<.*>::(clear|truncate)$")
def _vclear(c):
    loc, off, ln = sl(c)
    if c.path.endswith("clear"):
        setlen(c, c.st, loc, I(0))
        c.ev("vec_clear", loc=loc)
        return c.one(UNIT)
    return None


# ------------------------------------------------------------------ iteration
@on(r"<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def _range(c):
    loc = c.loc(0)
    s0 = c.e.read(c.st, c.e.step(loc, ("f", "start")))
    e0 = c.e.read(c.st, c.e.step(loc, ("f", "end")))

    def yes(s):
        c.e.write(s, c.e.step(loc, ("f", "start")), binop("Add", s0, I(1), 64), c.site)
        return some(s0)
    return c.fork(compare("Lt", s0, e0), yes, lambda s: NONE)


@on(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$|^<&'a (mut )?(\[T\]|std::vec::Vec<T, A>) as std::iter::IntoIterator>::into_iter$")
def _iter(c):
    if c.a[0][0] == "slice":
        return None
    return c.one(("ag", "$iter", "", (("base", c.a[0]), ("pos", I(0)))))


@on(r"^<std::slice::(Iter|IterMut)<'a, T> as std::iter::Iterator>::next$")
def _inext(c):
    loc = c.loc(0)
    it = c.e.read(c.st, loc)
    base, pos = field(it, "base"), field(it, "pos")
    if base[0] == "f":
        return None
    bl = c.e.deref(c.st, base)
    ln = c.e.vec_len(c.st, bl)

    def yes(s):
        c.e.write(s, c.e.step(loc, ("f", "pos")), binop("Add", pos, I(1), 64), c.site)
        return some(("ref", eloc(bl, I(0), pos)))
    return c.fork(compare("Lt", pos, ln), yes, lambda s: NONE)


@on(r"<impl std::iter::IntoIterator for \[T; N\]>::into_iter$|^<\[.*; .*\] as std::iter::IntoIterator>::into_iter$")
def _arriter(c):
    v = c.a[0]
    if not (v[0] == "ag" and v[1] == "array"):
        return None
    return c.one(("ag", "$arr", "", (("of", v), ("pos", I(0)))))


@on(r"^<std::array::IntoIter<.*> as std::iter::Iterator>::next$")
def _arrnext(c):
    loc = c.loc(0)
    it = c.e.read(c.st, loc)
    if not (it[0] == "ag" and it[1] == "$arr" and is_i(field(it, "pos"))):
        return None
    of, i = field(it, "of"), field(it, "pos")[1]
    if i >= len(of[3]):
        return c.one(NONE)
    c.e.write(c.st, c.e.step(loc, ("f", "pos")), I(i + 1), c.site, log=False)
    return c.one(some(of[3][i][1]))


# ------------------------------------------------------------------ the rest
@on(r"^std::intrinsics::(likely|unlikely|black_box)$|^std::hint::(likely|unlikely|black_box|must_use)$")
def _id(c):
    return c.one(c.a[0])


@on(r"^std::intrinsics::(cold_path|assume|assert_inhabited|assert_zero_valid)$|^std::hint::(assert_unchecked|spin_loop|cold_path)$|precondition_check$")
def _nop(c):
    return c.one(UNIT)


@on(r"^std::intrinsics::three_way_compare$")
def _twc(c):
    return c.one(("cmp", c.a[0], c.a[1]))


@on(r"^std::intrinsics::discriminant_value$")
def _dv(c):
    t = c.c["targs"][0]
    return c.one(c.e.disc(c.st, c.load(0), t))


@on(r"^std::mem::discriminant$|^std::intrinsics::(size_of|align_of|needs_drop)")
def _m(c):
    return None


@on(r"^<T as std::borrow::ToOwned>::to_owned$")
def _owned(c):
    """for a type that can be cloned this is its clone"""
    t = c.targ(0)
    if t.get("k") == "adt" and t["path"] == "std::task::Waker":
        return _wclone(c)
    return None


@on(r"^std::clone::Clone::clone$")
def _clone(c):
    t = c.targ(0)
    if t.get("k") in ("int", "uint", "bool", "ref", "float", "char") or not t.get("drop") and t.get("k") == "tuple":
        return c.one(c.load(0))
    if t.get("k") == "adt" and t["path"] == "std::option::Option" and not t.get("drop"):
        return c.one(c.load(0))
    return None


@on(r"^<std::marker::PhantomData<.*> as std::default::Default>::default$|^<.*PhantomData.* as std::clone::Clone>::clone$")
def _ph(c):
    return c.one(("ag", "std::marker::PhantomData", "", ()))


@on(r"^std::default::Default::default$")
def _def(c):
    t = c.targ(0)
    if t.get("k") in ("int", "uint", "bool"):
        return c.one(I(0))
    return None


# ------------------------------------------------------------------ keyed collections (HashMap, slab::Slab)
# The content is an array indexed by key; presence follows from the recorded operations or is an unknown.
KEYED = ("kput", "kdel", "kclear")


def version(e, st, loc):
    return e.read(st, (loc[0], loc[1] + (("f", "$ver"),)))


def present(e, st, loc, k):
    """1, 0 or an atom: is key k in the collection at loc?"""
    n = 0
    ver = version(e, st, loc)
    for i in range(len(st.ev) - 1, -1, -1):
        ev = st.ev[i]
        if ev.k not in KEYED or ev.loc != loc or ev.ver != ver:
            continue
        if ev.k == "kclear":
            return I(0)
        if ev.key == k:
            return I(1 if ev.k == "kput" else 0)
        if not e.distinct(st, ev.key, k):
            n = i + 1
            break
    v = e.read(st, (loc[0], loc[1] + (("f", "$empty"),)))
    if n == 0 and v == I(1):
        return I(0)
    return ("app", "has", ("ref", loc), k, ver if n == 0 else ("app", "at", ver, I(n)))


def cell(loc, k):
    return (loc[0], loc[1] + (("i", k),))


def count(c, loc, d):
    l = c.e.step(loc, ("f", "$n"))
    n = c.e.read(c.st, l)
    return l, binop("Add", n, I(d & mask(64)), 64)


def has_fork(c, loc, k, a, b):
    x = present(c.e, c.st, loc, k)
    c.ev("klook", loc=loc, key=k, res=x)
    if x == I(1):
        return [(c.st, a(c.st))]
    if x == I(0):
        return [(c.st, b(c.st))]
    return c.fork(x, a, b)


MAP = r"^std::collections::HashMap::<K, V(?:, S)?(?:, A)?>::"


@on(MAP + r"(new|with_capacity)$|^<std::collections::HashMap<.*> as std::default::Default>::default$|^slab::Slab::<.*>::(new|with_capacity)$|^<slab::Slab<.*> as std::default::Default>::default$")
def _knew(c):
    c.ev("knew", path=c.path, args=c.a)
    return c.one(("ag", "$keyed", "", (("$n", I(0)), ("$empty", I(1)), ("$ver", I(0)))))


@on(MAP + r"(contains_key)$|^slab::Slab::<.*>::(contains)$")
def _khas(c):
    loc = c.loc(0)
    k = c.load(1) if c.m.group(1) else c.a[1]
    x = present(c.e, c.st, loc, k)
    c.ev("klook", loc=loc, key=k, res=x)
    return c.one(x)


@on(MAP + r"(get|get_mut)$|^slab::Slab::<.*>::(get|get_mut)$")
def _kget(c):
    loc = c.loc(0)
    k = c.load(1) if c.m.group(1) else c.a[1]
    return has_fork(c, loc, k, lambda s: some(("ref", cell(loc, k))), lambda s: NONE)


@on(r"^<std::collections::HashMap<.*> as std::ops::(Index)<.*>>::index$|^<slab::Slab<.*> as std::ops::(Index|IndexMut)<usize>>::\w+$")
def _kindex(c):
    loc = c.loc(0)
    k = c.load(1) if c.m.group(1) else c.a[1]
    x = present(c.e, c.st, loc, k)
    if x == I(0):
        return c.one("panic")
    c.ev("klook", loc=loc, key=k, res=x, index=True)
    if x != I(1):
        c.st.f.assume(x, True)
    return c.one(("ref", cell(loc, k)))


@on(r"^hashbrown::(?:raw::RawTable|map::HashMap)::<.*>::reserve$")
def _hreserve(c):
    return c.one(UNIT)


@on(MAP + r"insert$|^hashbrown::map::HashMap::<K, V(?:, S)?(?:, A)?>::insert$")
def _mins(c):
    loc, k, v = c.loc(0), c.a[1], c.a[2]
    if c.path.startswith("hashbrown"):      # reached from the standard map's own code: its field `base`
        if not loc[1] or loc[1][-1] != ("f", "base"):
            return None
        loc = (loc[0], loc[1][:-1])

    def put(s, new):
        old = c.e.read(s, cell(loc, k))
        l = c.e.step(loc, ("f", "$n"))
        if new:
            c.e.write(s, l, binop("Add", c.e.read(s, l), I(1), 64), c.site, log=False)
        c.e.write(s, cell(loc, k), v, c.site, log=False)
        s.ev.append(Ev("kput", loc=loc, key=k, val=v, new=new, ver=version(c.e, s, loc), site=c.site))
        return NONE if new else some(old)
    x = present(c.e, c.st, loc, k)
    if is_i(x):
        return [(c.st, put(c.st, x == I(0)))]
    return c.fork(x, lambda s: put(s, False), lambda s: put(s, True))


ENTRY = r"^std::collections::hash_map::"


@on(MAP + r"entry$")
def _kentry(c):
    loc, k = c.loc(0), c.a[1]
    e = ("ag", "$kentry", "", (("map", c.a[0]), ("key", k)))
    v = lambda n: ("ag", "std::collections::hash_map::Entry", n, ((n + ".0", e),))
    return has_fork(c, loc, k, lambda st: v("Occupied"), lambda st: v("Vacant"))


@on(ENTRY + r"(Vacant|Occupied)Entry::<.*>::(insert|insert_entry|into_mut|get|get_mut|key|into_key|remove|remove_entry)$")
def _kent(c):
    kind, op = c.m.group(1), c.m.group(2)
    e = c.a[0]
    if e[0] == "ref":
        e = c.load(0)
    if not (e[0] == "ag" and e[1] == "$kentry"):
        return None
    m, k = field(e, "map"), field(e, "key")
    if m[0] != "ref":
        return None
    loc = m[1]
    if op == "key":
        return None
    if op == "into_key":
        return c.one(k)
    if op in ("into_mut", "get", "get_mut"):
        return c.one(("ref", cell(loc, k)))
    if op.startswith("insert"):
        old = c.e.read(c.st, cell(loc, k))
        new = kind == "Vacant"
        if new:
            l, n = count(c, loc, 1)
            c.e.write(c.st, l, n, c.site, log=False)
        c.e.write(c.st, cell(loc, k), c.a[1], c.site, log=False)
        c.ev("kput", loc=loc, key=k, val=c.a[1], new=new, ver=version(c.e, c.st, loc))
        return c.one(e if op == "insert_entry" else ("ref", cell(loc, k)) if new else old)
    return None


@on(ENTRY + r"Entry::<.*>::(or_insert|insert_entry)$")
def _kentor(c):
    v = c.a[0]
    if not (v[0] == "ag" and v[2] in ("Occupied", "Vacant") and c.a[0][3][0][1][1] == "$kentry"):
        return None
    e = v[3][0][1]
    m, k = field(e, "map"), field(e, "key")
    if m[0] != "ref":
        return None
    loc, new = m[1], v[2] == "Vacant"
    if new or c.m.group(1) == "insert_entry":
        if new:
            l, n = count(c, loc, 1)
            c.e.write(c.st, l, n, c.site, log=False)
        c.e.write(c.st, cell(loc, k), c.a[1], c.site, log=False)
        c.ev("kput", loc=loc, key=k, val=c.a[1], new=new, ver=version(c.e, c.st, loc))
    return c.one(("ref", cell(loc, k)) if c.m.group(1) == "or_insert" else e)


@on(r"^slab::Slab::<.*>::insert$")
def _sins(c):
    loc, v = c.loc(0), c.a[1]
    k = c.e.fresh("slot")
    seen = {p[len(loc[1])][1] for (r, p) in c.st.mem if r == loc[0] and len(p) > len(loc[1]) and p[: len(loc[1])] == loc[1] and p[len(loc[1])][0] == "i"}
    seen |= {ev.key for ev in c.st.ev if ev.k in ("kput", "klook") and ev.loc == loc and (ev.k == "kput" or c.st.f.const(ev.res) == 1)}
    for ev in c.st.ev:
        if ev.k == "kdel" and ev.loc == loc:
            seen.discard(ev.key)
    for x in seen:
        c.st.f.add_ord("ne", x, k)
    l, n = count(c, loc, 1)
    c.e.write(c.st, l, n, c.site, log=False)
    c.e.write(c.st, cell(loc, k), v, c.site, log=False)
    c.ev("kput", loc=loc, key=k, val=v, new=True, ver=version(c.e, c.st, loc))
    return c.one(k)


@on(MAP + r"(remove)$|^slab::Slab::<.*>::(remove|try_remove)$")
def _kdel(c):
    loc = c.loc(0)
    k = c.load(1) if c.m.group(1) else c.a[1]

    def yes(s):
        v = c.e.read(s, cell(loc, k))
        l = c.e.step(loc, ("f", "$n"))
        n = binop("Sub", c.e.read(s, l), I(1), 64)
        c.e.write(s, l, n, c.site, log=False)
        s.mem.pop(cell(loc, k), None)
        for q in [q for q in s.mem if q[0] == loc[0] and q[1][: len(loc[1]) + 1] == cell(loc, k)[1]]:
            del s.mem[q]
        s.ev.append(Ev("kdel", loc=loc, key=k, val=v, ver=version(c.e, s, loc), site=c.site))
        return v if c.m.group(1) is None and c.m.group(2) == "remove" else some(v)
    no = (lambda s: "panic") if c.m.group(1) is None and c.m.group(2) == "remove" else (lambda s: NONE)
    return has_fork(c, loc, k, yes, no)


@on(r"^(?:std::collections::HashMap::<K, V(?:, S)?(?:, A)?>|slab::Slab::<.*>)::(len|is_empty|capacity)$")
def _klen(c):
    loc = c.loc(0)
    n = c.e.read(c.st, c.e.step(loc, ("f", "$n" if c.m.group(1) != "capacity" else "$cap")))
    return c.one(n if c.m.group(1) != "is_empty" else c.e.fold(c.st, compare("Eq", n, I(0))))


@on(r"^(?:std::collections::HashMap::<K, V(?:, S)?(?:, A)?>|slab::Slab::<.*>)::clear$")
def _kclear(c):
    loc = c.loc(0)
    c.e.write(c.st, loc, c.e.fresh("cleared"), c.site, log=False)
    c.e.write(c.st, c.e.step(loc, ("f", "$n")), I(0), c.site, log=False)
    c.ev("kclear", loc=loc, ver=version(c.e, c.st, loc))
    return c.one(UNIT)


@on(r"^(?:std::collections::HashMap::<K, V(?:, S)?(?:, A)?>|slab::Slab::<.*>)::(shrink_to_fit|shrink_to|reserve|reserve_exact)$")
def _kcap(c):
    loc = c.loc(0)
    c.e.write(c.st, c.e.step(loc, ("f", "$cap")), c.e.fresh("capacity"), c.site, log=False)
    c.ev("kcap", loc=loc, op=c.m.group(1), arg=c.a[1] if len(c.a) > 1 else None)
    return c.one(UNIT)


@on(r"^(?:std::collections::HashMap::<K, V(?:, S)?(?:, A)?>|slab::Slab::<.*>)::(iter|iter_mut|values|values_mut|keys)$|^<&'a (?:mut )?(?:std::collections::HashMap<.*>|slab::Slab<.*>) as std::iter::IntoIterator>::(into_iter)$")
def _kiter(c):
    op = c.m.group(1) or "iter"
    mode = "v" if op.startswith("values") else "k" if op == "keys" else "kv"
    by = "s" if "slab" in c.path else "m"
    return c.one(("ag", "$kiter", "", (("base", c.a[0]), ("mode", ("str", mode)), ("by", ("str", by)))))


@on(r"^<(?:std::collections::hash_map::\w+|slab::\w+)<.*> as std::iter::Iterator>::next$")
def _kinext(c):
    it = c.load(0)
    base = field(it, "base")
    if field(it, "mode")[0] != "str":
        return None
    loc = c.e.deref(c.st, base)
    mode, by = field(it, "mode")[1], field(it, "by")[1]
    k = c.e.fresh("each")

    def yes(s):
        s.ev.append(Ev("each", loc=loc, key=k, site=c.site))
        r = ("ref", cell(loc, k))
        kk = k
        if by == "m" and mode != "v":
            n = ("T", next(c.e.fresh_n))
            s.mem[(n, ())] = k
            kk = ("ref", (n, ()))
        return some(r if mode == "v" else kk if mode == "k" else ("ag", "tuple", "", (("0", kk), ("1", r))))

    def no(s):
        s.ev.append(Ev("each_end", loc=loc, site=c.site))
        return NONE
    return c.fork_free(yes, no)


@on(r"^slab::Slab::<.*>::compact$")
def _kcompact(c):
    loc = c.loc(0)
    n = c.e.read(c.st, c.e.step(loc, ("f", "$n")))
    c.e.havoc_arg(c.st, c.a[1], c.ty[1])
    c.e.write(c.st, loc, c.e.fresh("compacted"), c.site, log=False)
    c.e.write(c.st, c.e.step(loc, ("f", "$n")), n, c.site, log=False)
    c.ev("kmix", loc=loc, fun=c.a[1], fty=c.ty[1])
    return c.one(UNIT)
