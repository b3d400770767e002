"""tokio_util::delay_queue::DelayQueue over its storage, lists, wheel and delay (each by what its own rules establish)"""
from framework import *
import arith
from arith import poly, padd, atom, key as pkey
from rules.interval import READY, PENDING, is_cx
from rules.queue import DQ, Q, P, sub, optval, says

MAX_LEN = (1 << 30) - 1
DELAY = "tokio::sleep::Sleep"


# ------------------------------------------------------------------ models
def _val(c, i):
    v = c.a[i]
    return c.e.read(c.st, c.e.deref(c.st, v)) if v[0] == "ref" else v


def _keyarg(c, i):
    """a Key passed by value or by reference"""
    v = c.a[i]
    t = c.ty[i] if isinstance(c.ty[i], dict) else c.e.p.types[c.ty[i]]
    return c.e.read(c.st, c.e.deref(c.st, v)) if t.get("k") == "ref" else v


def cell(loc, k):
    return (loc[0], loc[1] + (("f", "$cell"), ("i", k)))


def at(loc, n):
    return (loc[0], loc[1] + (("f", n),))


def quiet(c, loc, v):
    c.e.write(c.st, loc, v, c.site, log=False)


def _index(c):
    k = _keyarg(c, 1)
    c.ev("qcell", loc=c.loc(0), key=k)
    return c.one(("ref", cell(c.loc(0), k)))


def _sins(c):
    loc = c.loc(0)
    k = c.e.fresh("key")
    quiet(c, cell(loc, k), c.a[1])
    c.ev("qins", loc=loc, key=k, val=c.a[1])
    n = c.e.read(c.st, at(loc, "$n"))
    quiet(c, at(loc, "$n"), binop("Add", n, I(1), 64))
    return c.one(k)


def _srem(c):
    loc = c.loc(0)
    k = _keyarg(c, 1)
    v = c.e.read(c.st, cell(loc, k))
    c.ev("qrem", loc=loc, key=k, val=v)
    n = c.e.read(c.st, at(loc, "$n"))
    quiet(c, at(loc, "$n"), binop("Sub", n, I(1), 64))
    return c.one(v)


def _shas(c):
    loc = c.loc(0)
    k = _keyarg(c, 1)
    v = ("app", "held", loc, k)
    c.ev("qhas", loc=loc, key=k, ret=v)
    return c.one(v)


def _squery(c):
    loc = c.loc(0)
    op = c.m.group(1)
    n = c.e.read(c.st, at(loc, "$n"))
    if op == "len":
        return c.one(n)
    if op == "is_empty":
        return c.one(compare("Eq", n, I(0)))
    return c.one(c.e.read(c.st, at(loc, "$cap")))


def _scap(c):
    c.ev("qcap", loc=c.loc(0), op=c.m.group(1), args=c.a[1:])
    return c.one(UNIT)


def _sclear(c):
    loc = c.loc(0)
    c.ev("qclear", loc=loc)
    quiet(c, at(loc, "$n"), I(0))
    return c.one(UNIT)


SLAB_NEW = lambda cap: ("ag", "tokio_util::delay_queue::SlabStorage", "", (("$n", I(0)), ("$cap", cap)))
WHEEL_NEW = ("ag", "tokio_util::wheel::Wheel", "", (("elapsed", I(0)), ("$next", NONE)))


def _kpush(c):
    loc, k = c.loc(0), _keyarg(c, 1)
    c.ev("qpush", loc=loc, key=k, store=c.loc(2))
    quiet(c, at(loc, "head"), some(k))
    return c.one(UNIT)


def _kpop(c):
    loc = c.loc(0)
    h = c.e.read(c.st, at(loc, "head"))
    store = c.loc(1)

    def took(st):
        k = field(h, "Some.0")
        c.st, old = st, c.st
        c.ev("qpop", loc=loc, key=k, store=store)
        quiet(c, at(loc, "head"), c.e.fresh("head"))
        c.st = old
        return some(k)
    if h[0] == "ag":
        return c.one(took(c.st) if h[2] == "Some" else NONE)
    out = []
    s2 = c.st.copy()
    if s2.f.set_const(("disc", h), 1):
        out.append((s2, took(s2)))
    if c.st.f.set_const(("disc", h), 0):
        out.append((c.st, NONE))
    return out


def _kremove(c):
    loc, k = c.loc(0), _keyarg(c, 1)
    c.ev("qdetach", loc=loc, key=k, store=c.loc(2))
    quiet(c, at(loc, "head"), c.e.fresh("head"))
    return c.one(UNIT)


def _winsert(c):
    loc, when, k = c.loc(0), c.a[1], c.a[2]
    el = c.e.read(c.st, at(loc, "elapsed"))
    store = c.loc(3)
    out = []
    ie = lambda v: ("ag", "tokio_util::wheel::InsertError", v, ())
    bad = lambda v: ("ag", "std::result::Result", "Err", (("Err.0", ("ag", "tuple", "", (("0", k), ("1", ie(v))))),))
    s = c.st.copy()
    if s.f.assume(compare("Le", when, el), True):
        c.st, old = s, c.st
        c.ev("qwins", loc=loc, when=when, key=k, out="Elapsed", store=store)
        c.st = old
        out.append((s, bad("Elapsed")))
    s = c.st
    if s.f.assume(compare("Le", when, el), False):
        s2 = s.copy()
        c.ev("qwins", loc=loc, when=when, key=k, out="Ok", store=store)
        quiet(c, at(loc, "$next"), c.e.fresh("next"))
        out.append((s, ok(UNIT)))
        c.st = s2
        c.ev("qwins", loc=loc, when=when, key=k, out="Invalid", store=store)
        out.append((s2, bad("Invalid")))
    return out


def _wremove(c):
    loc, k = c.loc(0), _keyarg(c, 1)
    store = c.loc(2)
    when = c.e.read(c.st, at(cell(store, k), "when"))
    c.ev("qwrem", loc=loc, key=k, when=when, store=store)
    quiet(c, at(loc, "$next"), c.e.fresh("next"))
    return c.one(UNIT)


def _wpoll(c):
    loc = c.loc(0)
    v = c.e.fresh("due")
    c.ev("qwpoll", loc=loc, now=c.a[1], ret=v, store=c.loc(2))
    quiet(c, at(loc, "elapsed"), c.e.fresh("elapsed"))
    quiet(c, at(loc, "$next"), c.e.fresh("next"))
    return c.one(v)


def _wnext(c):
    return c.one(c.e.read(c.st, at(c.loc(0), "$next")))


def _welapsed(c):
    return c.one(c.e.read(c.st, at(c.loc(0), "elapsed")))


def _znew(c):
    c.ev("sleep_new", at=c.a[0])
    return c.one(("ag", DELAY, "", (("state", c.e.fresh("node")), ("deadline", c.a[0]))))


def _zpoll(c):
    loc = c.loc(0)
    cx = c.a[1]

    def out(s, v):
        s.ev.append(Ev("sleep_poll", site=c.site, loc=loc, cx=cx, out=v[2]))
        return v
    return c.fork_free(lambda s: out(s, READY), lambda s: out(s, PENDING))


def _zelapsed(c):
    v = c.e.fresh("is_elapsed")
    c.ev("sleep_elapsed", loc=c.loc(0), ret=v)
    return c.one(v)


def _zreset(c):
    c.ev("sleep_reset", loc=c.loc(0), at=c.a[1])
    c.e.write(c.st, c.e.step(c.loc(0), ("f", "deadline")), c.a[1], c.site, log=False)
    return c.one(UNIT)


def _zdeadline(c):
    return c.one(c.e.read(c.st, c.e.step(c.loc(0), ("f", "deadline"))))


S = r"tokio_util::delay_queue::SlabStorage"
K = r"^<tokio_util::delay_queue::Stack<.*> as tokio_util::wheel::stack::Stack>::"
W = r"^tokio_util::wheel::Wheel::<.*>::"
MODEL = {
    r"^<%s<.*> as std::ops::Index(Mut)?<.*>>::index(_mut)?$" % S: _index,
    r"^%s::<.*>::insert$" % S: _sins,
    r"^%s::<.*>::remove$" % S: _srem,
    r"^%s::<.*>::contains$" % S: _shas,
    r"^%s::<.*>::(len|is_empty|capacity)$" % S: _squery,
    r"^%s::<.*>::(reserve|shrink_to_fit|compact)$" % S: _scap,
    r"^%s::<.*>::clear$" % S: _sclear,
    r"^%s::<.*>::with_capacity$" % S: lambda c: c.one(SLAB_NEW(c.a[0])),
    r"^<%s<.*> as std::default::Default>::default$" % S: lambda c: c.one(SLAB_NEW(I(0))),
    K + "push$": _kpush,
    K + "pop$": _kpop,
    K + "remove$": _kremove,
    W + "new$": lambda c: c.one(WHEEL_NEW),
    W + "insert$": _winsert,
    W + "remove$": _wremove,
    W + "poll$": _wpoll,
    W + "poll_at$": _wnext,
    W + "elapsed$": _welapsed,
    r"^tokio::sleep::(sleep_until|Sleep::new_at)$": _znew,
    r"^<tokio::sleep::Sleep as .*Future>::poll$": _zpoll,
    r"^tokio::sleep::Sleep::is_elapsed$": _zelapsed,
    r"^tokio::sleep::Sleep::reset$": _zreset,
    r"^tokio::sleep::Sleep::deadline$": _zdeadline,
}


# ------------------------------------------------------------------ milliseconds
FITS = []       # the facts of the path looked at


def fits(t):
    """known on this path: the sum or product, and what it is made of, does not wrap around"""
    if top(t) is not None or t[0] not in ("lin", "bin"):
        return True
    if not FITS:
        return False
    for k, c in FITS[-1].eq.items():
        if c == 1 and k[0] == "app" and k[1] in ("int_add_fits", "int_mul_fits"):
            if binop("Add" if k[1] == "int_add_fits" else "Mul", k[2], k[3], t[1] if t[0] == "lin" else 64) == t and fits(k[2]) and fits(k[3]):
                return True
    return False


def ms_poly(t):
    """exact value of a millisecond count, saturation aside; Div(x mod 1 s + c, 1 ms) + 1000 * (x div 1 s) = Div(x + c, 1 ms)"""
    k = t[0]
    if k == "cast" and t[1].startswith("IntToInt"):
        if not small(t[-1], t[2]) and not (FITS and (FITS[-1].holds("le", t[-1], I(mask(t[2]))) is True or FITS[-1].holds("lt", t[-1], I(1 << t[2])) is True)):
            return None
        return ms_poly(t[-1])
    if k == "app" and t[1] == "sat_add":
        a, b = ms_poly(t[3]), ms_poly(t[4])
        return None if a is None or b is None else padd(a, b)
    if k == "app" and t[1] == "sat_mul":
        a, b = ms_poly(t[3]), ms_poly(t[4])
        return None if a is None or b is None else arith.pmul(a, b)
    if k == "app" and t[1] in ("subsec_millis", "subsec_micros"):
        d = 10**6 if t[1] == "subsec_millis" else 10**3
        return atom(("Div", pkey(atom(("Rem", pkey(poly(t[2])), pkey({(): 10**9})))), pkey({(): d})))
    if k == "app" and t[1] == "div_ceil":
        x, y = ms_poly(t[-2]), ms_poly(t[-1])
        if x is None or y is None or set(y) != {()}:
            return None
        return atom(("Div", pkey(padd(x, {(): y[()] - 1})), pkey(y)))
    if k == "lin":
        if top(t) is None and not fits(t):      # it may wrap around
            return None
        d = {(): sgn(t[2], t[1])} if t[2] else {}
        for a, c in t[3]:
            p = ms_poly(a)
            if p is None:
                return None
            d = padd(d, p, sgn(c, t[1]))
        return d
    if k == "not" and t[1][0] == "eq" and I(0) in t[1][1:3]:
        x = t[1][1] if t[1][2] == I(0) else t[1][2]
        if x[0] == "bin" and x[1] == "Rem" and x[4] == I(10**6):    # 1 where the division leaves something
            q, a = ms_poly(x[3]), {(): 10**6}
            if q is not None:
                return padd(atom(("Div", pkey(padd(q, {(): 10**6 - 1})), pkey(a))), atom(("Div", pkey(q), pkey(a))), -1)
    if k == "bin" and t[1] == "Div":
        x, y = ms_poly(t[3]), ms_poly(t[4])
        return None if x is None or y is None else atom(("Div", pkey(x), pkey(y)))
    return poly(t)


def top(t):
    """an upper bound of a number computed without wrapping around, or None"""
    k = t[0]
    if is_i(t):
        return t[1]
    if k in ("not", "eq", "lt", "le"):
        return 1
    if k == "cast" and t[1].startswith("IntToInt"):
        x = top(t[-1])
        return mask(t[2]) if x is None else min(x, mask(t[2]))
    if k == "app" and t[1].startswith("subsec_"):
        return {"subsec_nanos": 10**9, "subsec_micros": 10**6, "subsec_millis": 10**3}.get(t[1], mask(32)) - 1
    if k == "app" and t[1] in ("as_millis", "as_micros", "as_nanos"):
        return 2**64 * {"as_millis": 10**3, "as_micros": 10**6, "as_nanos": 10**9}[t[1]] - 1
    if k == "app" and t[1] in ("sat_add", "sat_mul"):
        return mask(t[2][1])
    if k == "bin" and t[1] in ("Div", "Rem") and is_i(t[4]) and t[4][1] and (t[3][0] != "lin" or top(t[3]) is not None):
        x = top(t[3])
        x = mask(t[2]) if x is None else x
        return x // t[4][1] if t[1] == "Div" else min(x, t[4][1] - 1)
    if k == "lin":
        hi, lo = (sgn(t[2], t[1]),) * 2
        for a, c in t[3]:
            x = top(a)
            if x is None:
                if a[0] in ("lin", "bin"):
                    return None
                x = mask(t[1])
            c = sgn(c, t[1])
            hi, lo = hi + max(0, c * x), lo + min(0, c * x)
        return hi if lo >= 0 and hi <= mask(t[1]) else None
    return None


def small(t, w):
    """t certainly fits w bits: part of a second, or less"""
    if t[0] == "cast" and t[1].startswith("IntToInt"):
        return t[2] <= w or small(t[-1], w)
    if t[0] == "app" and t[1] in ("subsec_nanos", "subsec_micros", "subsec_millis"):
        return True
    if t[0] == "app" and t[1] in ("as_nanos", "as_micros", "as_millis"):
        return w >= 128
    if t[0] == "app" and t[1] in ("min",):
        return True
    if t[0] in ("bin", "lin"):
        return t[2 if t[0] == "bin" else 1] in range(1, w + 1) or t[0] == "bin" and t[1] in ("Div", "Rem") and small(t[3], w)
    return is_i(t) or w >= 64 and not (t[0] == "app" and t[1].startswith("as_"))


def ms_sat(f, t):
    """[('up' / 'down', length)]: on this path t is that length in milliseconds, rounded; the greatest number stands for a count known not to fit"""
    FITS.append(f)
    try:
        if t != I(mask(64)):
            return ms_norm(ms_poly(t), f)
        out = []
        for a, b, op in f.ord:
            if op == "lt" and a == t or op == "le" and a == I(1 << 64):
                out += ms_norm(ms_poly(b), f)
        for k, c in f.eq.items():
            if c == 0 and k[0] == "app" and k[1] in ("int_add_fits", "int_mul_fits"):
                a, b = ms_poly(k[2]), ms_poly(k[3])
                if a is None or b is None:
                    continue
                if k[1] == "int_add_fits":
                    out += ms_norm(padd(a, b), f)
                    continue
                p = arith.pmul(a, b)
                (m, c), = p.items() if len(p) == 1 else [((), 0)]
                # the whole seconds alone are too many milliseconds
                if c == 1000 and len(m) == 1 and m[0][0] == "Div" and dict(m[0][2]) == {(): 10**9} and () not in dict(m[0][1]):
                    out += [("up", dict(m[0][1])), ("down", dict(m[0][1]))]
        return out
    finally:
        FITS.pop()


def even(f, x):
    """is the length x known to be a whole number of milliseconds?  True / False / None"""
    sec = atom(("Rem", pkey(x), pkey({(): 10**9})))
    for t in list(f.eq) + list(f.ne) + [y for o in f.ord for y in o[:2]]:
        if t[0] == "bin" and t[1] == "Rem" and t[4] == I(10**6) and ms_poly(t[3]) in (x, sec):
            c = f.const(t)
            if c is not None:
                return c == 0
            if 0 in f.ne.get(t, ()) or f.holds("eq", t, I(0)) is False or f.holds("lt", I(0), t) is True:
                return False
    return None


def ms_norm(p, f):
    if p is None:
        return []
    p = dict(p)
    for _ in range(2):
        for m in list(p):
            if len(m) != 1 or m[0][0] != "Div" or p[m] != 1000 or dict(m[0][2]) != {(): 10**9}:
                continue
            x = dict(m[0][1])
            for n in list(p):
                if len(n) == 1 and n[0][0] == "Div" and p[n] == 1 and dict(n[0][2]) == {(): 10**6}:
                    y = dict(n[0][1])
                    rem = (("Rem", m[0][1], m[0][2]),)
                    if y.get(rem) == 1 and set(y) <= {rem, ()}:
                        del p[m], p[n]
                        p = padd(p, atom(("Div", pkey(padd(x, {(): y.get((), 0)})), pkey({(): 10**6}))))
                        break
            break
    more = p.pop((), 0)
    if len(p) != 1:
        return []
    (m, c), = p.items()
    if c != 1 or len(m) != 1 or m[0][0] != "Div" or dict(m[0][2]) != {(): 10**6}:
        return []
    x = dict(m[0][1])
    # instants and durations stand for lengths in nanoseconds: a constant part is what the rounding adds
    plus = x.pop((), 0) + more * 10**6
    whole = even(f, x)
    kinds = {0: {True: "up down", False: "down", None: "down"}, 10**6 - 1: {True: "up down", False: "up", None: "up"}, 10**6: {True: "", False: "up", None: ""}}
    return [(k, x) for k in kinds.get(plus, {}).get(whole, "").split()]


class View:
    """One path of a DelayQueue method."""

    def __init__(self, r, st, self_=None):
        self.r, self.st = r, st
        s = r.params[0] if self_ is None else self_
        self.q = (("P", s), ())
        self.q0 = ("*", s)
        self.slab, self.wheel, self.exp, self.delay, self.waker = (sub(self.q, n) for n in ("slab", "wheel", "expired", "delay", "waker"))
        self.start = field(self.q0, "start")
        self.el0 = field(field(self.q0, "wheel"), "elapsed")
        self.next0 = field(field(self.q0, "wheel"), "$next")
        self.delay0 = field(self.q0, "delay")
        self.waker0 = field(self.q0, "waker")
        self.n0 = field(field(self.q0, "slab"), "$n")

    def now(self, loc):
        return self.r.e.read(self.st, loc)

    def cell(self, k, n):
        return self.now(at(cell(self.slab, k), n))

    def cell0(self, k, n):
        return field(elem(field(field(self.q0, "slab"), "$cell"), k), n)

    def next(self):
        return self.now(at(self.wheel, "$next"))

    def opt(self, t):
        """None, (payload,), or '?' """
        if t[0] == "ag":
            return None if t[2] == "None" else (field(t, "Some.0"),)
        d = self.st.f.const(("disc", t))
        return "?" if d is None else (field(t, "Some.0"),) if d else None

    def sleep(self, d):
        """location of the sleep in a Some(delay)"""
        return self.r.e.deref(self.st, d)

    def due(self, d):
        return self.now(at(self.sleep(d), "deadline"))

    def due0(self):
        return field(("*", field(self.delay0, "Some.0")), "deadline")

    def instant(self, ms):
        return padd(poly(self.start), poly(("app", "from_millis", ms)))

    def is_at(self, t, ms):
        return poly(t) == self.instant(ms)

    def woken(self):
        """the stored consumer, if there is one, was woken"""
        if self.st.f.const(("disc", self.waker0)) == 0:
            return True
        return any(e.k == "wake" and waker_root(e.val) == field(self.waker0, "Some.0") for e in self.st.ev)

    def changes(self):
        return [i for i, e in enumerate(self.st.ev) if e.k in ("qins", "qrem", "qdetach", "qwrem", "qwins", "qpush", "qpop", "qwpoll", "qclear", "qcap", "sleep_new", "sleep_reset", "sleep_poll", "wake") or e.k == "write" and e.loc[0] == self.q[0]]

    def fields_kept(self, *names):
        return self.now(sub(self.q, "start")) == self.start

    # -- what is known about rounded times
    def up(self, t, when):
        """t is `when` in whole milliseconds since the queue's start, rounded up"""
        return any(m[0] == "up" and poly_len(m[1], when, self.start) for m in ms_sat(self.st.f, t))

    def ord(self, pa, pb):
        """'lt', 'le', or 'eq' known between values satisfying the predicates"""
        for a, b, op in self.st.f.ord:
            if op in ("lt", "le", "eq") and pa(a) and pb(b) or op == "eq" and pa(b) and pb(a):
                return op
        return None

    def normal(self, t, when):
        """t = max(whole milliseconds to `when`, rounded up, the wheel's time)"""
        f = self.st.f
        early = f.holds("lt", when, self.start) is True or f.holds("le", when, self.start) is True
        if t == self.el0:
            last = f.holds("le", I(mask(64)), t) is True or f.holds("lt", I(mask(64) - 1), t) is True
            return early or last or self.ord(lambda x: self.up(x, when), lambda y: y == self.el0) is not None
        if t == I(0):
            return early and (f.const(self.el0) == 0 or f.holds("le", self.el0, t) is True)
        if self.up(t, when):
            return t == I(mask(64)) or f.holds("le", self.el0, t) is True or f.holds("lt", self.el0, t) is True
        return False

    def delay_vs(self, w):
        """is the present delay's time, rounded and not before the wheel's, no earlier than w?  True / False (no later) / None"""
        f, d = self.st.f, self.due0()
        isw = lambda x: x == w
        isd = lambda x: self.up(x, d)
        if f.holds("lt", d, self.start) is True or f.holds("le", d, self.start) is True:
            return False
        if self.ord(isd, isw) or self.ord(isd, lambda x: x == self.el0):
            return False
        if self.ord(isw, isd):
            return True
        if is_i(w) and any(isd(k) and n <= w[1] for k, n in f.eq.items()):
            return False
        if w == I(0):
            return True
        iw = self.instant(w)
        if self.ord(lambda x: x == d, lambda y: poly(y) == iw):
            return False
        if self.ord(lambda x: poly(x) == iw, lambda y: y == d):
            return True
        return None


def poly_len(x, when, start):
    """x = when - start"""
    return x == padd(poly(when), poly(start), -1) or x == poly(("app", "idiff", when, start))


CONFIGS = ("default", "test")

TAGS.update({
    "the item is filed with the wheel once": "C19 C21",
    "it is filed under the deadline stored with it": "C19 C23",
    "the deadline is the requested instant in whole milliseconds, rounded up, not before the wheel's time": "C19 C23 C26",
    "an item already due joins the expired ones": "C19 C21 C23",
    "an item already due is marked as such": "C21 C22",
    "an item in the wheel is not marked as expired": "C21 C22",
    "refuses only what the wheel cannot hold or a full queue": "C23",
    "refuses only what the wheel cannot hold": "C23",
    "what is refused is the requested deadline": "C23",
    "a deadline out of range is refused": "C23",
    "the item is stored once": "C21 C22",
    "the key returned is the item's": "C22",
    "the value is stored unchanged": "C19 C21",
    "a new item is linked nowhere": "C21",
    "no other item is touched": "C21 C22",
    "the time base is kept": "C19 C23",
    "the time base is kept, or starts anew together with the wheel and its time": "C19 C23",
    "the queue's wait is armed afterwards": "C20",
    "it is armed for the new item": "C20",
    "the consumer is woken when the wait is armed": "C20",
    "the wait is kept only when it is not later than the new item": "C20",
    "the wait is brought forward to the new item, and only forward": "C20",
    "the consumer is woken when the wait is brought forward": "C20",
    "a timeout counts from now": "C26",
    "whether the item has expired decides where it is taken out": "C21",
    "the item is taken out of the list that holds it": "C21",
    "it is looked up under the deadline it was filed under": "C21",
    "nothing changes before the key was found valid": "C22",
    "the item leaves storage once, after its list": "C21",
    "the consumer is woken when the queue becomes empty": "C20",
    "with nothing left to wait for there is no wait": "C20",
    "the wait follows the wheel's next expiration": "C20",
    "its own value is handed back": "C19 C21",
    "with its own deadline": "C19 C21",
    "and its own key": "C19 C21 C22",
    "a key of a live item is not refused": "C22",
    "whether the key has an item decides": "C22",
    "an item there is handed back": "C21 C22",
    "without an item nothing is touched": "C22",
    "the item is taken out before it is filed again": "C21",
    "the value stays": "C21",
    "the consumer is woken when the item is due at once": "C20",
    "the wait is kept or dropped when the wheel is empty": "C20",
    "a wait is not dropped while the wheel holds items": "C20",
    "polling does not panic by itself": "C19 C21",
    "polling takes items out, nothing else": "C21",
    "the wheel is asked as of the time the completed wait stood for": "C19",
    "the time recorded is one that has been reached": "C19",
    "the expired items and the wheel are looked at": "C20 C21",
    "an expired item is handed out right away": "C19 C21",
    "the wait stays as it is": "C20",
    "expired items go first": "C21",
    "the search goes on only with nothing due and a new wait for what comes next": "C20",
    "a due item is handed out": "C21",
    "the wait is set for the wheel's next expiration, if any": "C20",
    "the stream ends only with no item left": "C20 C21",
    "the consumer is kept to be woken by an insertion": "C20",
    "pending only while the queue's own wait is, with the caller registered": "C20",
    "the consumer is kept to be woken by insertions": "C20",
    "the item handed out leaves storage, once": "C21",
    "there is nothing left to wait for": "C20",
    "the consumer is woken": "C20",
    "gives the stored value": "C27",
    "storage is asked, and only storage": "C22 C27",
})


def run(o, name, trait=None):
    b = o.p.method(Q, name) if trait is None else o.p.method(Q, name, trait)
    return o.run(b, extra=MODEL, key="queue")


def filed(o, v, k, when, lo=0):
    """The item under k is filed under its normalised deadline: in the wheel, or as expired.  Gives the time, or None."""
    r, st = v.r, v.st
    w = [e for e in st.ev[lo:] if e.k == "qwins"]
    if not o.path(r, st, len(w) == 1 and w[0].key == k and w[0].loc == v.wheel and w[0].store == v.slab, "the item is filed with the wheel once"):
        return None
    e = w[0]
    W = v.cell(k, "when")
    o.path(r, st, e.when == W, "it is filed under the deadline stored with it", e)
    o.path(r, st, v.normal(W, when), "the deadline is the requested instant in whole milliseconds, rounded up, not before the wheel's time", e)
    if e.out == "Invalid":
        return W
    p = [x for x in st.ev if x.k == "qpush"]
    fl = v.cell(k, "expired")
    if e.out == "Elapsed":
        o.path(r, st, len(p) == 1 and p[0].key == k and p[0].loc == v.exp and p[0].store == v.slab, "an item already due joins the expired ones", e)
        o.path(r, st, fl == I(1), "an item already due is marked as such", e)
    else:
        o.path(r, st, not p and st.f.const(fl) == 0 if not is_i(fl) else not p and fl == I(0), "an item in the wheel is not marked as expired", e)
    return W


def inserted(o, r, st, value, when, self_=None):
    v = View(r, st, self_)
    ins = [e for e in st.ev if e.k == "qins"]
    if st.exit.k == "panic":
        bad = any(e.k == "qwins" and e.out == "Invalid" for e in st.ev)
        full = not ins and any(op in ("le", "lt") and is_i(a) and a[1] >= MAX_LEN and b == v.n0 for a, b, op in st.f.ord)
        far = not ins and st.f.truth(("app", "iadd_fits") + tuple(when[2:4])) is False if when[0] == "app" else False
        o.path(r, st, bad or full or far, "refuses only what the wheel cannot hold or a full queue")
        if bad:
            w = [e for e in st.ev if e.k == "qwins"]
            o.path(r, st, v.normal(w[0].when, when), "what is refused is the requested deadline")
        return "refused" if bad else "full"
    if not o.path(r, st, st.exit.k == "return", "ends"):
        return None
    if not o.path(r, st, len(ins) == 1 and ins[0].loc == v.slab, "the item is stored once"):
        return None
    k = ins[0].key
    o.path(r, st, st.ret == k, "the key returned is the item's")
    o.path(r, st, field(ins[0].val, "inner") == value and v.cell(k, "inner") == value, "the value is stored unchanged")
    o.path(r, st, v.cell(k, "next")[0] != "f" and field(ins[0].val, "next") == NONE and field(ins[0].val, "prev") == NONE, "a new item is linked nowhere")
    o.path(r, st, not [e for e in st.ev if e.k in ("qrem", "qdetach", "qwrem", "qpop", "qclear", "qwpoll", "sleep_poll")], "no other item is touched")
    o.path(r, st, v.now(sub(v.q, "start")) == v.start, "the time base is kept")
    W = filed(o, v, k, when)
    if W is None:
        return None
    out = next(e.out for e in st.ev if e.k == "qwins")
    if out == "Invalid":
        o.path(r, st, False, "a deadline out of range is refused")
        return None
    fin = v.opt(v.now(v.delay))
    was = v.opt(v.delay0)
    nx = v.opt(v.next())
    if not o.path(r, st, isinstance(fin, tuple), "the queue's wait is armed afterwards"):
        return None
    t = v.due(fin[0])
    ahead = isinstance(nx, tuple) and out == "Ok" and v.is_at(t, nx[0])
    if was is None:
        o.path(r, st, v.is_at(t, W) or ahead, "it is armed for the new item")
        o.path(r, st, v.woken(), "the consumer is woken when the wait is armed")
        return out, "new"
    if any(m[0] == "up" and poly_len(m[1], v.due0(), v.start) for m in ms_sat(st.f, I(mask(64)))):
        return None         # a wait is only ever armed for a number of milliseconds that fits
    later = v.delay_vs(W)
    if t == v.due0():
        o.path(r, st, later is False, "the wait is kept only when it is not later than the new item")
        return out, "kept"
    o.path(r, st, ahead or v.is_at(t, W) and later is True, "the wait is brought forward to the new item, and only forward")
    o.path(r, st, v.woken(), "the consumer is woken when the wait is brought forward")
    return out, "forward"


WANT_INSERT = {(a, b) for a in ("Ok", "Elapsed") for b in ("new", "kept", "forward")} | {"refused"}


@rule("dq.insert", "C19 C20 C21 C22 C23 C26", "Insertion stores the value once under the key returned, files it under its deadline rounded up to a millisecond and not before the wheel's time, and leaves the wait armed no later than it, waking the consumer when that changed", CONFIGS)
def insert(o):
    r = run(o, "insert_at")
    o.need({inserted(o, r, st, r.params[1], r.params[2]) for st in r.states} >= WANT_INSERT, "%s: has all its outcomes" % r.path)
    r = run(o, "insert")
    got = set()
    for st in r.states:
        n = find(st, "now")
        if o.path(r, st, len(n) == 1, "a timeout counts from now"):
            got.add(inserted(o, r, st, r.params[1], ("app", "iadd", st.ev[n[0]].ret, r.params[2])))
    o.need(got >= WANT_INSERT, "%s: has all its outcomes" % r.path)


def taken_out(o, r, st, v, k):
    """The item under k leaves whichever structure it is in."""
    fl = v.st.f.const(v.cell0(k, "expired"))
    d = [i for i, e in enumerate(st.ev) if e.k in ("qdetach", "qwrem")]
    if not o.path(r, st, fl is not None and len(d) == 1, "whether the item has expired decides where it is taken out"):
        return None
    e = st.ev[d[0]]
    o.path(r, st, e.k == ("qdetach" if fl else "qwrem") and e.loc == (v.exp if fl else v.wheel) and e.key == k and e.store == v.slab, "the item is taken out of the list that holds it", e)
    if e.k == "qwrem":
        o.path(r, st, e.when == v.cell0(k, "when"), "it is looked up under the deadline it was filed under", e)
    ch = [i for i in v.changes() if i < d[0]]
    o.path(r, st, not ch, "nothing changes before the key was found valid", e)
    o.path(r, st, v.now(sub(v.q, "start")) == v.start, "the time base is kept")
    return d[0]


def removed(o, r, st, k, ret, self_=None):
    v = View(r, st, self_)
    d = taken_out(o, r, st, v, k)
    if d is None:
        return None
    g = [i for i, e in enumerate(st.ev) if e.k == "qrem"]
    if not o.path(r, st, len(g) == 1 and g[0] > d and st.ev[g[0]].key == k and st.ev[g[0]].loc == v.slab, "the item leaves storage once, after its list"):
        return None
    o.path(r, st, not [e for e in st.ev if e.k in ("qins", "qwins", "qpush", "qpop", "qclear", "qwpoll", "sleep_poll")], "no other item is touched")
    handed(o, r, st, v, k, ret)
    # an emptied queue
    f = st.f.copy()
    last = f.assume(compare("Eq", binop("Sub", v.n0, I(1), 64), I(0)), True)
    o.path(r, st, not last or v.woken(), "the consumer is woken when the queue becomes empty")
    fin, n0, n1 = v.opt(v.now(v.delay)), v.opt(v.next0), v.opt(v.next())
    kept = v.now(v.delay) == v.delay0 and not [e for e in st.ev if e.k == "sleep_reset"]
    same_ = n0 == n1 or v.next() == v.next0 or isinstance(n0, tuple) and isinstance(n1, tuple) and (st.f.holds("eq", n0[0], n1[0]) is True or v.ord(lambda a: v.is_at(a, n0[0]), lambda b: v.is_at(b, n1[0])) == "eq")
    if kept and same_:
        return "same"
    if n1 is None:
        o.path(r, st, fin is None, "with nothing left to wait for there is no wait")
        return "none"
    o.path(r, st, isinstance(n1, tuple) and isinstance(fin, tuple) and v.is_at(v.due(fin[0]), n1[0]), "the wait follows the wheel's next expiration")
    return "moved"


def handed(o, r, st, v, k, x):
    """x is the Expired of the item that was stored under k"""
    o.path(r, st, field(x, "data") == v.cell0(k, "inner"), "its own value is handed back")
    o.path(r, st, poly(field(x, "deadline")) == v.instant(v.cell0(k, "when")), "with its own deadline")
    o.path(r, st, field(x, "key") == k, "and its own key")


@rule("dq.remove", "C20 C21 C22", "Removal takes the item out of the list that holds it and out of storage, hands it back with its key and deadline, and lets the wait follow; the fallible form does nothing for a key without an item", CONFIGS, also="C19 C23")
def remove(o):
    r = run(o, "remove")
    k = ("*", r.params[1])
    got = set()
    for st in r.states:
        if o.path(r, st, st.exit.k == "return", "a key of a live item is not refused"):
            got.add(removed(o, r, st, k, st.ret))
    o.need(got >= {"same", "none", "moved"}, "%s: has all its outcomes" % r.path, "", str(got))
    r = run(o, "try_remove")
    k = ("*", r.params[1])
    got = set()
    for st in r.states:
        v = View(r, st)
        h = [e for e in st.ev if e.k == "qhas"]
        if not o.path(r, st, st.exit.k == "return" and len(h) >= 1 and h[0].key == k and h[0].loc == v.slab, "whether the key has an item decides"):
            continue
        if st.f.truth(h[0].ret) is True:
            if o.path(r, st, variant(st.ret) == "Some", "an item there is handed back"):
                got.add(removed(o, r, st, k, field(st.ret, "Some.0")))
        else:
            got.add("absent")
            o.path(r, st, st.f.truth(h[0].ret) is False and variant(st.ret) == "None" and not v.changes() and not [e for e in st.ev if e.k == "qcell"], "without an item nothing is touched")
    o.need(got >= {"same", "none", "moved", "absent"}, "%s: has all its outcomes" % r.path, "", str(got))


def moved(o, r, st, k, when, self_=None):
    v = View(r, st, self_)
    if st.exit.k == "panic":
        bad = any(e.k == "qwins" and e.out == "Invalid" for e in st.ev)
        far = not v.changes() and when[0] == "app" and st.f.truth(("app", "iadd_fits") + tuple(when[2:4])) is False
        o.path(r, st, bad or far, "refuses only what the wheel cannot hold")
        return "refused"
    if not o.path(r, st, st.exit.k == "return", "ends"):
        return None
    d = taken_out(o, r, st, v, k)
    if d is None:
        return None
    w = [i for i, e in enumerate(st.ev) if e.k == "qwins"]
    o.path(r, st, len(w) == 1 and w[0] > d, "the item is taken out before it is filed again")
    W = filed(o, v, k, when)
    if W is None:
        return None
    o.path(r, st, not [e for e in st.ev if e.k in ("qins", "qrem", "qpop", "qclear", "qwpoll", "sleep_poll")], "no other item is touched")
    o.path(r, st, v.cell(k, "inner") == v.cell0(k, "inner"), "the value stays")
    out = st.ev[w[0]].out
    if out == "Invalid":
        o.path(r, st, False, "a deadline out of range is refused")
        return None
    if out == "Elapsed":
        o.path(r, st, v.woken(), "the consumer is woken when the item is due at once")
    fin, was, n1 = v.opt(v.now(v.delay)), v.opt(v.delay0), v.opt(v.next())
    if n1 is None:
        o.path(r, st, fin is None or v.now(v.delay) == v.delay0 and not [e for e in st.ev if e.k == "sleep_reset"] or isinstance(fin, tuple) and v.due(fin[0]) == v.due0(), "the wait is kept or dropped when the wheel is empty")
        return out, "kept"
    if fin is None:
        o.path(r, st, was is None, "a wait is not dropped while the wheel holds items")
        return out, "unarmed"
    o.path(r, st, isinstance(fin, tuple) and isinstance(n1, tuple) and v.is_at(v.due(fin[0]), n1[0]), "the wait follows the wheel's next expiration")
    return out, "follows"


@rule("dq.reset", "C19 C20 C21 C22 C23 C26", "Resetting takes the item out, gives it the new deadline and files it again under that one; the wait follows, and the consumer is woken when the item is due at once", CONFIGS)
def reset(o):
    want = {("Ok", "follows"), ("Elapsed", "follows"), ("Elapsed", "kept"), "refused"}
    r = run(o, "reset_at")
    got = {moved(o, r, st, ("*", r.params[1]), r.params[2]) for st in r.states}
    o.need(got >= want, "%s: has all its outcomes" % r.path, "", str(got))
    r = run(o, "reset")
    got = set()
    for st in r.states:
        n = find(st, "now")
        if o.path(r, st, len(n) == 1, "a timeout counts from now"):
            got.add(moved(o, r, st, ("*", r.params[1]), ("app", "iadd", st.ev[n[0]].ret, r.params[2])))
    o.need(got >= want, "%s: has all its outcomes" % r.path, "", str(got))


@rule("dq.poll", "C19 C20 C21", "Polling hands out an expired item, or one of the wheel as of the time its completed wait stood for; it ends the stream only with nothing left, and is pending only with the caller stored and registered with the wait", CONFIGS)
def poll_(o):
    for name, tr in (("poll_expired", None), ("poll_next", "Stream")):
        b = o.p.method(Q, name) if tr is None else o.p.method(Q, name, tr)
        r = o.run(b, extra=MODEL, key="queue")
        cx = r.params[1]
        kinds = set()
        for st in r.states:
            v = View(r, st)
            if not o.path(r, st, st.exit.k in ("return", "loopback"), "polling does not panic by itself"):
                continue
            o.path(r, st, v.now(sub(v.q, "start")) == v.start and not [e for e in st.ev if e.k in ("qins", "qwins", "qpush", "qdetach", "qwrem", "qclear", "sleep_reset")], "polling takes items out, nothing else")
            pops = [e for e in st.ev if e.k == "qpop"]
            wp = [i for i, e in enumerate(st.ev) if e.k == "qwpoll"]
            for i in wp:
                o.path(r, st, st.ev[i].loc == v.wheel and st.ev[i].store == v.slab and as_of(v, i), "the wheel is asked as of the time the completed wait stood for", st.ev[i])
            for i, e in enumerate(st.ev):
                if e.k == "write" and e.loc == sub(v.q, "wheel_now"):
                    o.path(r, st, reached(v, e.val, i), "the time recorded is one that has been reached", e)
            o.path(r, st, len(pops) + len(wp) >= 1 or st.ret is not None and variant(st.ret) == "Pending", "the expired items and the wheel are looked at")
            none_left = st.f.const(("disc", field(field(v.q0, "expired"), "head"))) == 0
            if pops:
                p = pops[0]
                kinds.add("expired")
                okk = len(pops) == 1 and not wp and p.loc == v.exp and p.store == v.slab and st.exit.k == "return"
                if o.path(r, st, okk and variant(st.ret) == "Ready", "an expired item is handed out right away"):
                    given(o, r, st, v, p.key)
                o.path(r, st, v.now(v.delay) == v.delay0, "the wait stays as it is")
                continue
            if not o.path(r, st, none_left, "expired items go first"):
                continue
            if wp:
                due = st.ev[wp[-1]].ret
                d = st.f.const(("disc", due))
                fin, n1 = v.opt(v.now(v.delay)), v.opt(v.next())
                armed = n1 is None and fin is None or isinstance(n1, tuple) and isinstance(fin, tuple) and v.is_at(v.due(fin[0]), n1[0])
                if st.exit.k == "loopback":
                    kinds.add("again")
                    o.path(r, st, d == 0 and isinstance(fin, tuple) and armed and len(wp) == 1, "the search goes on only with nothing due and a new wait for what comes next")
                    continue
                if d == 1:
                    kinds.add("due")
                    if o.path(r, st, variant(st.ret) == "Ready" and len(wp) == 1, "a due item is handed out"):
                        given(o, r, st, v, field(due, "Some.0"))
                    o.path(r, st, armed, "the wait is set for the wheel's next expiration, if any")
                    continue
                if variant(st.ret) == "Ready":
                    kinds.add("end")
                    o.path(r, st, d == 0 and variant(field(st.ret, "Ready.0")) == "None" and n1 is None and fin is None, "the stream ends only with no item left")
                    o.path(r, st, stored(v, cx), "the consumer is kept to be woken by an insertion")
                    continue
            if not o.path(r, st, st.exit.k == "return" and variant(st.ret) == "Pending", "ends one of four ways"):
                continue
            kinds.add("pending")
            sp = [e for e in st.ev if e.k == "sleep_poll"]
            fin = v.opt(v.now(v.delay))
            o.path(r, st, bool(sp) and sp[-1].out == "Pending" and is_cx(sp[-1].cx, cx) and isinstance(fin, tuple) and sp[-1].loc == v.sleep(fin[0]), "pending only while the queue's own wait is, with the caller registered")
            o.path(r, st, stored(v, cx), "the consumer is kept to be woken by insertions")
        o.need(kinds == {"expired", "again", "due", "end", "pending"}, "%s: has all its outcomes" % r.path, "", str(kinds))


def stored(v, cx):
    """the waker kept is the caller's, or one that wakes the same task"""
    w = v.now(v.waker)
    if variant(w) == "Some":
        return is_cx_waker(field(w, "Some.0"), cx)
    if v.st.f.const(("disc", v.waker0)) == 1 and w != v.waker0:
        return is_cx_waker(v.now(at(v.waker, "Some.0")), cx)
    if w != v.waker0 or v.st.f.const(("disc", w)) != 1:
        return False
    f = v.st.f
    for k in list(f.eq):
        if k[0] == "app" and k[1] == "will_wake" and f.eq[k] == 1:
            a, b = k[2], k[3]
            if any(x == field(v.waker0, "Some.0") and is_cx_waker(y, cx) for x, y in ((a, b), (b, a))):
                return True
    return False


def done(v, loc, i):
    """the sleep at loc was seen complete before event i"""
    for e in v.st.ev[last_loop(v.st): i]:
        if e.k == "sleep_elapsed" and e.loc == loc and v.st.f.const(e.ret) == 1 or e.k == "sleep_poll" and e.loc == loc and e.out == "Ready":
            return True
    return False


def reached(v, t, i):
    """t is the time a completed sleep stood for, rounded down"""
    for m in ms_sat(v.st.f, t):
        if m[0] != "down":
            continue
        for e in v.st.ev[last_loop(v.st): i]:
            if e.k in ("sleep_elapsed", "sleep_poll") and done(v, e.loc, i) and poly_len(m[1], v.now(at(e.loc, "deadline")), v.start):
                return True
        if any(e.k == "now" and poly_len(m[1], e.ret, v.start) for e in v.st.ev[:i]):
            return True
    return False


def as_of(v, i):
    t = v.st.ev[i].now
    if reached(v, t, i):
        return True
    # without a wait: a time reached before
    if [e for e in v.st.ev[last_loop(v.st): i] if e.k in ("sleep_elapsed", "sleep_poll")]:
        return False
    old = field(v.q0, "wheel_now")
    okk = lambda x: x in (old, v.el0) or any(m[0] == "down" for s in [v.st] + v.r.states for m in ms_sat(s.f, x)) or x in v.r.e.loopvals
    return all(okk(x) for x in origins(v.r, t))


def given(o, r, st, v, k):
    g = [e for e in st.ev if e.k == "qrem"]
    x = field(st.ret, "Ready.0")
    if o.path(r, st, len(g) == 1 and g[0].key == k and g[0].loc == v.slab and variant(x) == "Some", "the item handed out leaves storage, once"):
        handed(o, r, st, v, k, field(x, "Some.0"))


@rule("dq.clear", "C20 C21", "Clearing drops every item and every trace of it, and wakes the consumer; a new queue is empty and starts now", CONFIGS, also="C19 C23")
def clear(o):
    r = run(o, "clear")
    for st in r.states:
        v = View(r, st)
        if not o.path(r, st, st.exit.k == "return", "clearing always returns"):
            continue
        o.path(r, st, [e.loc for e in st.ev if e.k == "qclear"] == [v.slab] or v.now(at(v.slab, "$n")) == I(0), "storage is emptied")
        o.path(r, st, v.now(at(v.exp, "head")) == NONE, "the expired ones are forgotten")
        o.path(r, st, v.next() == NONE, "the wheel is emptied")
        o.path(r, st, v.opt(v.now(v.delay)) is None, "there is nothing left to wait for")
        o.path(r, st, v.woken(), "the consumer is woken")
        o.path(r, st, v.now(sub(v.q, "start")) == v.start or v.now(at(v.wheel, "elapsed")) == I(0) and v.now(sub(v.q, "wheel_now")) == I(0) and v.now(sub(v.q, "start")) in [st.ev[i].ret for i in find(st, "now")], "the time base is kept, or starts anew together with the wheel and its time")
    for name, tr in (("new", None), ("with_capacity", None), ("default", "Default")):
        b = o.p.method(Q, name) if tr is None else o.p.method(Q, name, tr)
        r = o.run(b, extra=MODEL, key="queue")
        for st in r.states:
            x = st.ret
            n = find(st, "now")
            if not o.path(r, st, st.exit.k == "return" and len(n) == 1, "creating a queue reads the clock once"):
                continue
            o.path(r, st, field(x, "start") == st.ev[n[0]].ret, "its time base is now")
            o.path(r, st, field(x, "delay") == NONE and field(x, "waker") == NONE and field(field(x, "expired"), "head") == NONE, "nothing waits")
            w, s = field(x, "wheel"), field(x, "slab")
            o.path(r, st, field(w, "elapsed") == I(0) and field(w, "$next") == NONE and field(s, "$n") == I(0) and field(x, "wheel_now") in (I(0), ("f", x, "wheel_now")), "wheel and storage are new")
            o.path(r, st, name != "with_capacity" or field(s, "$cap") == r.params[0], "the capacity is as asked")


def too_many(v, n):
    """the path is taken only for a capacity (or number of items) plus n beyond a constant of at least 2**24"""
    have = (field(field(v.q0, "slab"), "$cap"), v.n0)
    lim = lambda x: is_i(x) and x[1] >= 1 << 24
    sums = [add(h, n, 64) for h in have]
    for a, b, op in v.st.f.ord:
        if op in ("lt", "le") and lim(a) and b in sums + [n]:
            return True
    return any(t[0] == "app" and t[1] == "int_add_fits" and set(t[2:]) in [{h, n} for h in have] and c == 0 for t, c in v.st.f.eq.items())


@rule("dq.queries", "C21 C22 C27", "Length, capacity and emptiness are those of storage; compaction and capacity changes reach storage alone; an expired item's accessors give exactly what it holds", CONFIGS)
def queries(o):
    inner = lambda v, f: field(field(field(v.q0, "slab"), "inner"), f)
    for name, want in (("len", lambda v: (v.n0, inner(v, "$n"))), ("capacity", lambda v: (field(field(v.q0, "slab"), "$cap"), inner(v, "$cap"))), ("is_empty", lambda v: [compare("Eq", n, I(0)) for n in (v.n0, inner(v, "$n"))])):
        r = run(o, name)
        for st in r.states:
            v = View(r, st)
            o.path(r, st, st.exit.k == "return" and st.ret in want(v), "the answer is that of storage")
            o.path(r, st, not v.changes(), "asking changes nothing")
    for name in ("compact", "reserve", "shrink_to_fit"):
        r = run(o, name)
        n = 0
        for st in r.states:
            v = View(r, st)
            ch = v.changes()
            if st.exit.k == "panic":
                o.path(r, st, name == "reserve" and not ch, "only a reservation may be refused")
                o.path(r, st, name == "reserve" and too_many(v, r.params[-1]), "a reservation is refused only when it asks for more than a fixed limit")
                continue
            n += 1
            o.path(r, st, st.exit.k == "return" and len(ch) == 1 and st.ev[ch[0]].k == "qcap" and st.ev[ch[0]].loc == v.slab and st.ev[ch[0]].op == name and list(st.ev[ch[0]].args) == list(r.params[1:]), "storage is asked, and only storage")
        o.need(n >= 1, "%s: returns" % r.path)
    E = DQ + "::Expired"
    for name, f, ref in (("get_ref", "data", 1), ("get_mut", "data", 1), ("into_inner", "data", 0), ("deadline", "deadline", 0), ("key", "key", 0)):
        r = o.run(o.p.method(E, name))
        for st in r.states:
            by = r.params[0]
            if ref:
                okk = st.ret == ("ref", (("P", by), (("f", f),)))
            else:
                okk = st.ret in (field(by, f), field(("*", by), f))
            o.path(r, st, st.exit.k == "return" and okk and not [e for e in st.ev if e.k == "write"], "gives the stored value")
