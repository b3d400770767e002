"""std: Instant, SystemTime and its serialised form"""
from framework import *
from arith import poly, padd, key
import struct

INST = "std::Instant"
SYS = "std::SystemTime"
NAT = dict(instant_native=False)


def d0(t):
    """the Duration inside an Instant value"""
    return field(t, "0")


def deref(t):
    return ("*", t)


def two(r):
    """the two operands of a binary method, references looked through"""
    out = []
    for i, x in enumerate(r.params[:2]):
        ti = r.body["locals"][i + 1][0]
        out.append(deref(x) if r.e.p.types[ti].get("k") == "ref" else x)
    return out


CASES = {"lt": 0xff, "eq": 0, "gt": 1}


def under_case(st, a, b, case):
    f = st.f.copy()
    ok_ = {"lt": lambda: f.assume(("lt", a, b), True), "gt": lambda: f.assume(("lt", b, a), True), "eq": lambda: f.assume(compare("Eq", a, b, 128), True)}[case]()
    return f if ok_ else None


def ordering(t, f, a, b, case):
    """discriminant of the Ordering term t when a and b compare as `case`; None: unknown"""
    if t[0] == "cmp":
        if (t[1], t[2]) == (a, b):
            return CASES[case]
        if (t[1], t[2]) == (b, a):
            return {"lt": 1, "eq": 0, "gt": 0xff}[case]
        return None
    if t[0] == "ag":
        return {"Less": 0xff, "Equal": 0, "Greater": 1}.get(t[2])
    return None


def truth(t, f, a, b, case):
    t = t if t[0] != "ag" else t
    if t[0] == "eq" and t[1][0] == "disc" and is_i(t[2]):
        v = ordering(t[1][1], f, a, b, case)
        return None if v is None else v == t[2][1]
    if t[0] == "not":
        v = truth(t[1], f, a, b, case)
        return None if v is None else not v
    return f.truth(t)


def flt_total(st):
    """the path has not assumed an unordered pair of floats (not-a-number)"""
    return not any(k[:2] == ("app", "ordered") and v == 0 for k, v in st.f.eq.items())


def check_order(o, ty, inner, props):
    seen = 0
    EXP = {"eq": lambda c: c == "eq", "ne": lambda c: c != "eq", "lt": lambda c: c == "lt", "le": lambda c: c != "gt", "gt": lambda c: c == "gt", "ge": lambda c: c != "lt"}
    for tr, names in (("PartialEq", ("eq", "ne")), ("PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("Ord", ("cmp", "max", "min"))):
        for n in names:
            b = o.p.method(ty, n, tr, must=False)
            if b is None:
                o.need(n not in ("eq", "partial_cmp", "cmp"), "%s implements %s::%s" % (ty, tr, n))
                continue
            seen += 1
            r = o.run(b, **NAT)
            x, y = [field(v, inner) for v in two(r)]
            for st in r.states:
                if not flt_total(st):
                    continue
                if not o.path(r, st, st.exit.k == "return", "comparing does not panic"):
                    continue
                for case in CASES:
                    f = under_case(st, x, y, case)
                    if f is None:
                        continue
                    if n in EXP:
                        good = truth(st.ret, f, x, y, case) == EXP[n](case)
                    elif n == "cmp":
                        good = ordering(st.ret, f, x, y, case) == CASES[case]
                    elif n == "partial_cmp":
                        good = variant(st.ret) == "Some" and ordering(field(st.ret, "Some.0"), f, x, y, case) == CASES[case]
                    else:
                        want = {"max": {"lt": 1, "gt": 0}, "min": {"lt": 0, "gt": 1}}[n].get(case)
                        good = want is None or field(st.ret, inner) == (x, y)[want]
                    o.path(r, st, good, "%s orders by time (when the first is %s)" % (n, {"lt": "earlier", "eq": "equal", "gt": "later"}[case]))
    return seen


@rule("instant.order", "C16", "Instant's comparisons order by the contained duration, on every path and for each of the three cases")
def iorder(o):
    check_order(o, INST, "0", "C16")


def le(st, a, b):
    return st.f.holds("le", a, b) is True


def partials(st, nm):
    return [e for e in st.ev if e.k == "partial" and e.op == nm]


@rule("instant.arith", "C16", "Instant +/- Duration and Instant - Instant: exact value when representable, none / panic / zero otherwise, decided on every path")
def iarith(o):
    # checked forms
    for n, op in (("checked_add", "dadd"), ("checked_sub", "dsub")):
        r = o.run(o.p.method(INST, n), **NAT)
        x, d = d0(two(r)[0]), r.params[1]
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", n + " does not panic"):
                continue
            fits = fits_of(st, op, x, d)
            v = variant(st.ret)
            o.path(r, st, v in ("Some", "None") and fits is not None and (v == "Some") == fits, n + " is none exactly when the result is not representable")
            if v == "Some":
                o.path(r, st, same_dur(d0(field(st.ret, "Some.0")), op, x, d, st), n + " is exact")
    # operators
    for tr, n, op in (("Add<std::time::Duration>", "add", "dadd"), ("Sub<std::time::Duration>", "sub", "dsub"), ("AddAssign<std::time::Duration>", "add_assign", "dadd"), ("SubAssign<std::time::Duration>", "sub_assign", "dsub")):
        b = impl(o.p, INST, tr, n)
        if not o.need(b is not None, "Instant implements " + tr):
            continue
        r = o.run(b, **NAT)
        self_, d = two(r)
        x = d0(self_)
        for st in r.states:
            fits = fits_of(st, op, x, d)
            if st.exit.k == "panic":
                o.path(r, st, fits is False, n + " panics only on overflow")
                continue
            val = st.ret
            if n.endswith("assign"):
                w = [e for e in st.ev if e.k == "write" and e.loc[0] == ("P", r.params[0])]
                if not o.path(r, st, bool(w), n + " stores the result"):
                    continue
                val = r.e.read(st, (("P", r.params[0]), ()))
            o.path(r, st, same_dur(d0(val), op, x, d, st), n + " is exact")
            o.path(r, st, fits is True or any(e.args == [x, d] for e in partials(st, op)), n + " panics on overflow instead of wrapping or saturating")
    # differences
    for n, tr in (("duration_since", None), ("saturating_duration_since", None), ("sub", "Sub")):
        b = o.p.method(INST, n) if tr is None else (impl(o.p, INST, "Sub", "sub") or impl(o.p, INST, "Sub<std::Instant>", "sub"))
        if not o.need(b is not None, "Instant - Instant exists"):
            continue
        r = o.run(b, **NAT)
        a, e = [d0(x) for x in two(r)]
        for st in r.states:
            if o.path(r, st, st.exit.k == "return", "the difference of two instants never panics"):
                o.path(r, st, saturated(st, st.ret, a, e), "%s is exact when the first is later and zero otherwise" % n)
            o.path(r, st, not partials(st, "dsub") or le(st, e, a), "the difference never overflows")
    r = o.run(o.p.method(INST, "checked_duration_since"), **NAT)
    a, e = [d0(x) for x in two(r)]
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "the difference of two instants never panics"):
            continue
        v = variant(st.ret)
        if v == "Some":
            o.path(r, st, le(st, e, a) and same_dur(field(st.ret, "Some.0"), "dsub", a, e, st), "checked_duration_since is exact when the first is not earlier")
        else:
            o.path(r, st, v == "None" and st.f.holds("lt", a, e) is True, "checked_duration_since is none only when the first is earlier")


def impl(p, ty, tr, n):
    c = [p.bodies[i] for i in p.roots if p.bodies[i]["name"] == n and p.bodies[i]["self"] and Program.norm(p.bodies[i]["self"]) == ty and p.bodies[i]["trait"]]
    c = [b for b in c if ("as std::ops::" + tr + ">") in Program.norm(b["path"])]
    return c[0] if len(c) == 1 else None


def fits_of(st, op, x, d):
    """has the path established that x op d is (not) representable?"""
    if op == "dsub":
        if st.f.holds("le", d, x) is True:
            return True
        if st.f.holds("lt", x, d) is True:
            return False
        return None
    for a, b in ((x, d), (d, x)):
        v = st.f.eq.get(("app", op + "_fits", a, b))
        if v is not None:
            return bool(v)
    return None


def same_dur(t, op, x, d, st):
    return poly(t, st) == padd(poly(x, st), poly(d, st), 1 if op == "dadd" else -1)


def saturated(st, t, a, e):
    """t is max(a - e, 0) on this path"""
    if le(st, e, a) and same_dur(t, "dsub", a, e, st):
        return True
    return le(st, a, e) and t == ("dur", 0)


@rule("instant.now", "C16 C15", "now_js is the host clock's milliseconds truncated to whole microseconds; now() is that clock, or with the test utilities the pausable clock; elapsed() is now minus the instant", configs=("default", "test"))
def inow(o):
    r = o.run(o.p.method(INST, "now_js"), opaque=[r"^js::performance_now$"], **NAT)
    for st in r.states:
        c = calls(st, r"^js::performance_now$")
        if not o.path(r, st, st.exit.k == "return" and len(c) == 1, "the host clock is read once"):
            continue
        h = st.ev[c[0]].ret
        want = {(("cast", "FloatToInt", 64, False, ("bin", "Mul", "f") + tuple(sorted((h, fl(1000.0)), key=repr))),): 1000}
        o.path(r, st, poly(d0(st.ret), st) == want, "the host's milliseconds become whole microseconds, rounded down")
    inner = r"^timer::clock::now$" if o.x.config == "test" else r"^std::Instant::now_js$"
    b = o.p.method(INST, "now")
    r = o.run(b, opaque=[inner], **NAT)
    for st in r.states:
        c = calls(st, ".")
        o.path(r, st, st.exit.k == "return" and len(c) == 1 and re.search(inner, st.ev[c[0]].path) and st.ret == st.ev[c[0]].ret, "now() is the crate's one clock")
    r = o.run(o.p.method(INST, "elapsed"), opaque=[r"^std::Instant::now$"], **NAT)
    for st in r.states:
        c = calls(st, r"^std::Instant::now$")
        if o.path(r, st, st.exit.k == "return" and len(c) == 1, "elapsed() reads the clock once and never panics"):
            o.path(r, st, saturated(st, st.ret, d0(st.ev[c[0]].ret), d0(deref(r.params[0]))), "elapsed() is now minus the instant")


# ------------------------------------------------------------------ SystemTime
def fl(x):
    return I(struct.unpack("<Q", struct.pack("<d", x))[0])


def fnorm(t):
    """drop additions and subtractions of 0.0"""
    if t[0] == "bin" and t[2] == "f":
        a, b = fnorm(t[3]), fnorm(t[4])
        if t[1] == "Add" and b == I(0) or t[1] == "Sub" and b == I(0):
            return a
        if t[1] == "Add" and a == I(0):
            return b
        return t[:3] + (a, b)
    if t[0] in ("app", "cast", "lt", "le", "eq"):
        return tuple(fnorm(x) if isinstance(x, tuple) else x for x in t)
    return t


def fdiff(a, b):
    return fnorm(("bin", "Sub", "f", a, b))


def float_cmp(st, a, b):
    """what the path knows about a - b: 'neg', 'nonneg' or None"""
    d, e = fdiff(a, b), fdiff(b, a)
    pairs = [(d, I(0), "neg", "nonneg"), (I(0), e, "neg", "nonneg"), (fnorm(a), fnorm(b), "neg", "nonneg")]
    for x, y, op in st.f.ord:
        x, y = fnorm(x), fnorm(y)
        for p, q, lo, hi in pairs:
            if (x, y) == (p, q) and op == "lt":
                return lo
            if (x, y) == (q, p) and op in ("le", "lt", "eq"):
                return hi
            if op == "eq" and (x, y) == (p, q):
                return hi
    return None


def millis(t):
    """the float x when t is Duration::from_millis(x as u64)"""
    if t[0] == "app" and t[1] == "from_millis" and t[2][0] == "cast" and t[2][1] == "FloatToInt" and t[2][2] == 64 and not t[2][3]:
        return fnorm(t[2][4])
    return None


def is_distance(x, a, b, sign):
    """x is |a - b|, given the sign of a - b"""
    if x is None:
        return False
    if x[0] == "app" and x[1] == "f64_abs":
        return x[2] in (fdiff(a, b), fdiff(b, a))
    if x[0] == "un" and x[1] == "Neg":
        return x[3] == (fdiff(a, b) if sign == "neg" else fdiff(b, a))
    return x == (fdiff(b, a) if sign == "neg" else fdiff(a, b))


def since(o, r, st, a, b, what):
    """st.ret is the Result of a.duration_since(b)"""
    v = variant(st.ret)
    c = float_cmp(st, a, b)
    if not o.path(r, st, v in ("Ok", "Err") and c == ("nonneg" if v == "Ok" else "neg"), what + " is an error exactly when the other time is later"):
        return
    x = field(st.ret, "Ok.0") if v == "Ok" else field(field(st.ret, "Err.0"), "0")
    o.path(r, st, is_distance(millis(x), a, b, c), what + " carries the exact distance in milliseconds")


def inner_of(o):
    """name of SystemTime's one field"""
    for t in o.p.types:
        if t.get("k") == "adt" and Program.norm(t["path"]) == SYS:
            return t["vs"][0]["f"][0][0]
    raise AnalysisError("type SystemTime")


@rule("systime.order", "C17", "SystemTime's comparisons order by its milliseconds (host dates and sums are never not-a-number)")
def sorder(o):
    check_order(o, SYS, inner_of(o), "C17")


def moved(t, x, d, op):
    """t is x +- d.as_millis() as a float"""
    t = fnorm(t)
    if t[0] != "bin" or t[2] != "f" or t[1] != op:
        return False
    ops = [t[3], t[4]]
    if op == "Sub" and ops[0] != x:
        return False
    rest = [y for y in ops if y != x]
    if len(rest) != 1:
        return False
    y = rest[0]
    if y[0] == "cast" and y[1] == "IntToFloat":
        y = y[4]
        while y[0] == "cast" and y[1].startswith("IntToInt") and y[2] >= 64:
            y = y[4]
        return y == ("app", "as_millis", d)
    return False


@rule("systime.arith", "C17", "SystemTime: difference Ok/Err by sign with the exact distance, +/- move by the duration's milliseconds, now() is Date.now(), the epoch is 0")
def sarith(o):
    F = inner_of(o)
    r = o.run(o.p.method(SYS, "duration_since"))
    a, b = [field(x, F) for x in two(r)]
    for st in r.states:
        if flt_total(st) and o.path(r, st, st.exit.k == "return", "the difference never panics"):
            since(o, r, st, a, b, "the difference")
    NOW = [r"^js_sys::Date::now$"]
    r = o.run(o.p.method(SYS, "now"), opaque=NOW)
    for st in r.states:
        c = calls(st, NOW[0])
        o.path(r, st, st.exit.k == "return" and len(c) == 1 and field(st.ret, F) == st.ev[c[0]].ret, "now is the host's date")
    r = o.run(o.p.method(SYS, "elapsed"), opaque=NOW)
    a = field(deref(r.params[0]), F)
    for st in r.states:
        c = calls(st, NOW[0])
        if flt_total(st) and o.path(r, st, st.exit.k == "return" and len(c) == 1, "elapsed() reads the date once"):
            since(o, r, st, st.ev[c[0]].ret, a, "elapsed()")
    for tr, n, op in (("Add<std::time::Duration>", "add", "Add"), ("Sub<std::time::Duration>", "sub", "Sub"), ("AddAssign<std::time::Duration>", "add_assign", "Add"), ("SubAssign<std::time::Duration>", "sub_assign", "Sub"),
                      (None, "checked_add", "Add"), (None, "checked_sub", "Sub")):
        b = impl(o.p, SYS, tr, n) if tr else o.p.method(SYS, n)
        if not o.need(b is not None, "SystemTime has " + n):
            continue
        r = o.run(b)
        x = field(two(r)[0], F)
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", n + " does not panic"):
                continue
            val = st.ret
            if tr is None:
                if not o.path(r, st, variant(val) == "Some", n + " succeeds"):
                    continue
                val = field(val, "Some.0")
            elif n.endswith("assign"):
                val = r.e.read(st, (("P", r.params[0]), ()))
            o.path(r, st, moved(field(val, F), x, r.params[1], op), n + " moves the time by the duration's milliseconds, in the right direction")
    r = o.run(o.p.method("std::SystemTimeError", "duration"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and st.ret == field(deref(r.params[0]), "0") and not [e for e in st.ev if e.k == "write"], "an error reports its distance")
    n = 0
    for name, v in o.p.consts.items():
        if re.search(r"^std::(SystemTime::)?UNIX_EPOCH$", Program.norm(name)):
            n += 1
            o.need(field(v, F) == I(0), "the epoch is zero", name, show(v))
    o.need(n == 2, "both epoch constants exist", "", str(n))


# ------------------------------------------------------------------ serde
NAMES = ("secs_since_epoch", "nanos_since_epoch")


def serde_bodies(o):
    return o.p.method(SYS, "serialize", "Serialize"), o.p.method(SYS, "deserialize", "Deserialize")


def ev_calls(st, rx):
    return [st.ev[i] for i in calls(st, rx)]


def tail(ev):
    return ev.path.rsplit("::", 1)[-1]


def str_of(t):
    return t[1] if t[0] == "str" else None


def propagated(st, t):
    """t is the error of a call that failed on this path"""
    return any(e.k == "call" and t == field(e.ret, "Err.0") and st.f.const(("disc", e.ret)) == 1 for e in st.ev)


@rule("systime.write", "C18", "Serialize: times before the epoch are refused; others are a struct of exactly secs_since_epoch: u64 = whole seconds, nanos_since_epoch: u32 = the rest, in this order", configs=("test",), only=True)
def swrite(o):
    F = inner_of(o)
    ser, _ = serde_bodies(o)
    r = o.run(ser)
    x = field(deref(r.params[0]), F)
    kinds = set()
    for st in r.states:
        if not flt_total(st):
            continue
        if not o.path(r, st, st.exit.k == "return", "writing does not panic"):
            continue
        c = float_cmp(st, x, I(0))
        cs = [e for e in st.ev if e.k == "call"]
        if c == "neg":
            kinds.add("refused")
            o.path(r, st, variant(st.ret) == "Err" and not [e for e in cs if "serialize" in tail(e)], "times before the epoch are refused before anything is written")
            continue
        if not o.path(r, st, c == "nonneg", "times before the epoch are told apart"):
            continue
        steps = [e for e in cs if "Error::" not in e.path]
        good = bool(steps) and tail(steps[0]) == "serialize_struct" and str_of(steps[0].args[1]) == "SystemTime" and steps[0].args[2] == I(2) and steps[0].args[0] == r.params[1]
        o.path(r, st, good, "it is written as a struct SystemTime of two fields")
        fs = [e for e in steps if tail(e) == "serialize_field"]
        for k, e in enumerate(fs):
            okk = k < 2 and str_of(e.args[1]) == NAMES[k]
            v = e.vals[2]
            d = v[2] if v[0] == "app" and len(v) == 3 else None
            okk = okk and d is not None and v[1] == ("as_secs", "subsec_nanos")[k] and is_distance(millis(d), x, I(0), "nonneg")
            okk = okk and o.p.types[e.callee["targs"][-1]]["s"].lstrip("&") == ("u64", "u32")[k] if okk and e.has("callee") and e.callee.get("targs") else okk
            o.path(r, st, okk, "field %d is %s with its exact value" % (k, NAMES[min(k, 1)]), e)
        end = [e for e in steps if tail(e) == "end"]
        if end:
            kinds.add("written")
            o.path(r, st, len(fs) == 2 and steps[-1] is end[0] and st.ret == end[0].ret and all(st.f.const(("disc", e.ret)) == 0 for e in fs), "both fields are written before the struct is closed")
        else:
            kinds.add("error")
            o.path(r, st, variant(st.ret) == "Err" and propagated(st, field(st.ret, "Err.0")), "writing fails only when the format fails")
    o.need(kinds == {"refused", "written", "error"}, "Serialize has all its outcomes", ser["span"], str(kinds))


def visitor_body(o, ty, name, must=True):
    c = [o.p.bodies[i] for i in o.p.roots if o.p.bodies[i]["name"] == name and o.p.bodies[i]["self"] and o.p.bodies[i]["trait"] and re.sub("<'[a-z_]+>", "", o.p.bodies[i]["self"]) == re.sub("<'[a-z_]+>", "", ty)]
    if len(c) != 1:
        if must:
            raise AnalysisError("anchor %s::%s: %d candidates" % (ty, name, len(c)))
        return None
    return c[0]


def visitor_of(o, r, call):
    """type of the visitor handed to the deserializer, and that call's events"""
    for st in r.states:
        for e in ev_calls(st, call):
            if e.args[-1][0] == "ag":
                return e.args[-1][1]
    raise AnalysisError("no visitor is passed to " + call)


def fits(st, secs, nanos):
    """the path has decided whether secs + nanos / 1e9 overflows"""
    want = poly(("bin", "Div", 32, nanos, I(10**9)))
    for t, v in st.f.eq.items():
        if t[:2] == ("app", "int_add_fits"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a == secs and poly(b) == want:
                    return bool(v)
    if st.f.holds("lt", nanos, I(10**9)) is True:
        return True
    room = padd({(): -1}, want, -1)  # u64::MAX - want
    for a, b, op in st.f.ord:
        if op == "le" and a == secs and poly(b) == room:
            return True
        if op == "lt" and b == secs and poly(a) == room:
            return False
    return None


@rule("systime.read", "C18", "Deserialize: the visitor for struct SystemTime{secs_since_epoch, nanos_since_epoch}; the result is exactly the epoch plus the duration read; only the format's own errors are passed on", configs=("test",), only=True)
def sread(o):
    F = inner_of(o)
    _, de = serde_bodies(o)
    r = o.run(de)
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "reading does not panic"):
            continue
        c = ev_calls(st, r"::deserialize_struct$")
        if not o.path(r, st, len(c) == 1 and c[0].args[0] == r.params[0] and str_of(c[0].args[1]) == "SystemTime", "a struct SystemTime is asked for"):
            continue
        sl = c[0].args[2]
        names = tuple(str_of(elem(r.e.read(st, sl[1]), I(i))) for i in range(sl[3][1])) if sl[0] == "slice" and is_i(sl[3]) else None
        o.path(r, st, names == NAMES, "with exactly the fields that are written", c[0])
        if variant(st.ret) == "Ok":
            kinds.add("ok")
            t = fnorm(field(field(st.ret, "Ok.0"), F))
            d = field(c[0].ret, "Ok.0")
            ok_ = t[0] == "cast" and t[1] == "IntToFloat"
            y = t[4] if ok_ else t
            while y[0] == "cast" and y[1].startswith("IntToInt") and y[2] >= 64:
                y = y[4]
            o.path(r, st, ok_ and y == ("app", "as_millis", d) and st.f.const(("disc", c[0].ret)) == 0, "the time read is the epoch plus the duration read")
        else:
            kinds.add("err")
            o.path(r, st, variant(st.ret) == "Err" and propagated(st, field(st.ret, "Err.0")), "reading fails only when the format fails")
    o.need(kinds == {"ok", "err"}, "Deserialize has both outcomes", de["span"], str(kinds))
    vis = visitor_of(o, r, r"::deserialize_struct$")
    # sequences
    r = o.run(visitor_body(o, vis, "visit_seq"))
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "malformed input does not panic"):
            continue
        ne = ev_calls(st, r"SeqAccess::next_element$")
        got = [field(field(e.ret, "Ok.0"), "Some.0") for e in ne]
        full = [st.f.const(("disc", e.ret)) == 0 and st.f.const(("disc", field(e.ret, "Ok.0"))) == 1 for e in ne]
        kinds.add(outcome(o, r, st, len(ne) == 2 and all(full) and (got[0], got[1]), any(st.f.const(("disc", e.ret)) == 0 and st.f.const(("disc", field(e.ret, "Ok.0"))) == 0 for e in ne), "a short sequence"))
        for k, e in enumerate(ne):
            t = e.callee.get("targs") if e.has("callee") else None
            o.path(r, st, k < 2 and (not t or o.p.types[t[-1]]["s"] == ("u64", "u32")[k]), "seconds come first, as u64, then nanoseconds, as u32", e)
    o.need(kinds == {"ok", "overflow", "malformed", "format"}, "sequences have all their outcomes", r.body["span"], str(kinds))
    fieldmap = field_names(o, de)
    maps(o, vis, fieldmap)


def outcome(o, r, st, pair, malformed, what):
    """Classify one return of the visitor and check that it is the right one."""
    v = variant(st.ret)
    if v == "Ok":
        if not o.path(r, st, bool(pair), what + " is refused"):
            return "ok"
        s, n = pair
        o.path(r, st, field(st.ret, "Ok.0") == ("app", "dur_new", s, n), "what was read is the time")
        o.path(r, st, fits(st, s, n) is True, "overflowing values are refused")
        return "ok"
    if not o.path(r, st, v == "Err", "an outcome is a result"):
        return "?"
    e = field(st.ret, "Err.0")
    if pair and fits(st, *pair) is False:
        return "overflow"
    if malformed:
        return "malformed"
    o.path(r, st, propagated(st, e), "well-formed input is accepted")
    return "format"


def field_names(o, de):
    """visit_str / visit_bytes of the field identifier: name -> variant"""
    fv = [o.p.bodies[i] for i in o.p.roots if o.p.bodies[i]["name"] == "deserialize" and o.p.bodies[i]["id"] != de["id"] and o.p.bodies[i]["trait"] and o.p.bodies[i]["trait"].endswith("Deserialize") and "SystemTime" in o.p.bodies[i]["path"]]
    if len(fv) != 1:
        raise AnalysisError("anchor field identifier: %d candidates" % len(fv))
    r = o.run(fv[0])
    for st in r.states:
        c = ev_calls(st, r"::deserialize_identifier$")
        o.path(r, st, st.exit.k == "return" and len(c) == 1 and c[0].args[0] == r.params[0] and st.ret == c[0].ret, "a field name is read as an identifier")
    vis = visitor_of(o, r, r"::deserialize_identifier$")
    maps_ = {}
    for meth in ("visit_str", "visit_bytes", "visit_borrowed_str", "visit_borrowed_bytes", "visit_string", "visit_byte_buf", "visit_u64", "visit_u8"):
        b = visitor_body(o, vis, meth, must=meth in ("visit_str", "visit_bytes"))
        if b is None:
            continue
        r = o.run(b)
        m = {}
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", "any field name is handled"):
                continue
            v = deref(r.params[1])
            if variant(st.ret) == "Ok":
                hit = [n for n in NAMES if spelled(st, v, n)]
                if o.path(r, st, len(hit) == 1, "a field is accepted only under its exact name"):
                    m[hit[0]] = variant(field(st.ret, "Ok.0"))
            else:
                o.path(r, st, variant(st.ret) == "Err" and all(refuted(st, v, n) for n in NAMES), "only unknown field names are refused")
        o.path(r, r.states[0], set(m) == set(NAMES) and len(set(m.values())) == 2, "both field names are known and distinct")
        maps_[meth] = m
    o.need(len({tuple(sorted(m.items())) for m in maps_.values()}) == 1, "text and byte field names mean the same", "", str(maps_))
    return maps_["visit_str"]


def spelled(st, v, name):
    if st.f.holds("eq", v, ("*", ("str", name))) is True:
        return True
    b = name.encode()
    return st.f.const(field(v, "$len")) == len(b) and all(st.f.const(("ix", v, I(i))) == c for i, c in enumerate(b))


def refuted(st, v, name):
    if st.f.holds("eq", v, ("*", ("str", name))) is False:
        return True
    b = name.encode()
    ln = st.f.const(field(v, "$len"))
    if ln is not None and ln != len(b) or len(b) in st.f.ne.get(field(v, "$len"), ()):
        return True
    for i, c in enumerate(b):
        k = st.f.const(("ix", v, I(i)))
        if k is not None and k != c or c in st.f.ne.get(("ix", v, I(i)), ()):
            return True
    return False


def maps(o, vis, fieldmap):
    b = visitor_body(o, vis, "visit_map")
    r = o.run(b)
    kinds = set()
    # variant name -> discriminant
    disc = {}
    for t in o.p.types:
        if t.get("k") == "adt" and t["adt"] == "enum" and {x["n"] for x in t["vs"]} == set(fieldmap.values()) and "SystemTime" in t["path"]:
            disc = {x["n"]: int(x["d"]) for x in t["vs"]}
    if not o.need(bool(disc), "the field identifier is an enum"):
        return
    by = {disc[v]: k for k, v in fieldmap.items()}

    def reads(st):
        """[(key name, value term, index)] read in this trip"""
        out, cur = [], None
        for i, e in enumerate(st.ev):
            if e.k != "call":
                continue
            if tail(e) == "next_key":
                k = field(e.ret, "Ok.0")
                cur = by.get(st.f.const(("disc", field(k, "Some.0")))) if st.f.const(("disc", k)) == 1 else None
            elif tail(e) == "next_value":
                out.append((cur, e, i))
        return out
    vals = {}
    for st in r.states:
        for nm, e, i in reads(st):
            vals.setdefault(field(e.ret, "Ok.0"), set()).add(nm)

    def slot(t):
        """which field's value the Option t stands for at the loop head"""
        og = origins(r, t) - {t}
        og = {x for x in og if x[0] != "s" or x not in r.e.loopvals}
        names = set()
        for x in og:
            if x == NONE:
                continue
            if variant(x) != "Some":
                return None
            names |= vals.get(field(x, "Some.0"), {None})
        return names.pop() if len(names) == 1 and NONE in og else None
    slots = {}
    for k in r.e.loopvals:
        s = slot(k)
        if s:
            slots[s] = k
    if not o.need(set(slots) == set(NAMES), "each field's value is remembered, and nothing else in its place", b["span"], str(slots)):
        return
    for st in r.states:
        if not o.path(r, st, st.exit.k in ("return", "loopback"), "malformed input does not panic"):
            continue
        rd = reads(st)
        dup = None
        for e in ev_calls(st, r"next_key$"):
            k = field(e.ret, "Ok.0")
            if st.f.const(("disc", k)) == 1:
                nm = by.get(st.f.const(("disc", field(k, "Some.0"))))
                if o.path(r, st, nm in slots, "every field name is told apart", e):
                    dup = st.f.const(("disc", slots[nm]))
                    o.path(r, st, dup is not None, "a repeated field is noticed", e)
        for nm, e, i in rd:
            t = e.callee.get("targs") if e.has("callee") else None
            o.path(r, st, nm in NAMES and (not t or o.p.types[t[-1]]["s"] == ("u64" if nm == NAMES[0] else "u32")), "a value is read for a known field, in its width", e)
            o.path(r, st, dup == 0, "a repeated field is refused", e)
        if st.exit.k == "loopback":
            kinds.add("more")
            if o.path(r, st, len(rd) == 1, "each field name is followed by its value"):
                nx = st.exit.d.get("next", {})
                v = field(rd[0][1].ret, "Ok.0")
                o.path(r, st, nx.get(slots[rd[0][0]]) == some(v), "the value read is remembered")
                oth = slots[NAMES[1 - NAMES.index(rd[0][0])]]
                o.path(r, st, nx.get(oth, oth) == oth, "the other value is kept")
            continue
        s, n = slots[NAMES[0]], slots[NAMES[1]]
        have = (st.f.const(("disc", s)), st.f.const(("disc", n)))
        ended = any(st.f.const(("disc", e.ret)) == 0 and st.f.const(("disc", field(e.ret, "Ok.0"))) == 0 for e in ev_calls(st, r"next_key$"))
        pair = have == (1, 1) and ended and (field(s, "Some.0"), field(n, "Some.0"))
        kinds.add(outcome(o, r, st, pair, dup == 1 or ended and 0 in have, "a missing field"))
    o.need(kinds == {"more", "ok", "overflow", "malformed", "format"}, "maps have all their outcomes", b["span"], str(kinds))
