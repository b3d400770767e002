"""timer::clock, tokio::test_utils, and who may read a clock"""
from framework import *
from rules.driver import census, owned, given, imports, host

NOWJS = r"^std::Instant::now_js$"
CK = "timer::clock::Clock"
CLOCKOP = r"^timer::clock::Clock::(now|pause|resume|advance|paused|new)$"
GETCLOCK = r"^timer::clock::clock$"
TEST = ("test",)


def cell(st, t):
    """(locked place, lock event index) that the value t was read from"""
    for i, e in enumerate(st.ev):
        if e.k != "lock":
            continue
        if t == e.val:
            return e.loc, i
        if t[0] == "f" and t[1] == e.val:
            return (e.loc[0], e.loc[1] + (("f", t[2]),)), i
    return None, None


def about(loc, self_):
    """the place with the particular object abstracted away"""
    def go(t):
        if t == self_:
            return ("self",)
        return tuple(go(x) for x in t) if isinstance(t, tuple) else t
    return go(loc) if loc else None


def js(st, t):
    return any(e.k == "call" and re.search(NOWJS, e.path) and e.ret == t for e in st.ev)


def shape(o):
    """the two cells of the clock, identified by how they make up a reading"""
    r = o.run(o.p.method(CK, "now"), opaque=[NOWJS])
    base, run = set(), set()
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "reading the clock does not panic"):
            continue
        t = st.ret
        if t[0] == "app" and t[1] == "iadd":
            kinds.add("running")
            d = t[3]
            okk = d[0] == "app" and d[1] == "idiff" and js(st, d[2])
            okk = okk and d[3][0] == "f" and d[3][2] == "Some.0" and st.f.const(("disc", d[3][1])) == 1
            if o.path(r, st, okk, "a running clock shows its base plus the time since it was started, by the host's clock"):
                b, u = cell(st, t[2])[0], cell(st, d[3][1])[0]
                o.path(r, st, b is not None and u is not None, "base and start are the clock's own")
                base.add(about(b, r.params[0]))
                run.add(about(u, r.params[0]))
        else:
            kinds.add("paused")
            b = cell(st, t)[0]
            o.path(r, st, b is not None, "a paused clock shows its base")
            base.add(about(b, r.params[0]))
            z = [e for e in st.ev if e.k == "lock" and any(st.f.const(("disc", x)) == 0 for x in (e.val, ) + tuple(q[1] for q in st.f.eq if q[0] == "disc" and q[1][0] == "f" and q[1][1] == e.val))]
            o.path(r, st, bool(z), "the base alone is shown only when the clock is paused")
        o.path(r, st, not lockedwrites(st), "reading changes nothing")
    okk = len(base) == 1 and len(run) == 1 and kinds == {"running", "paused"}
    if not o.need(okk, "a reading is made of one base and one start", r.body["span"], "%s %s %s" % (base, run, kinds)):
        raise AnalysisError("the cells of the clock")
    return base.pop(), run.pop()


def lockedwrites(st):
    """writes to what the clock shares, but for those of the value that is there already"""
    out, was = [], {}
    for e in st.ev:
        if e.k == "lock":
            was[e.loc] = (e.n, e.val)
        elif e.k == "unlock":
            was = {l: x for l, x in was.items() if x[0] != e.n}
        elif e.k == "write" and e.loc[0][0] in ("P", "G"):
            _, v = was.pop(e.loc, (None, None))
            if v is not None and (e.val == v or show(e.val) == "None{}" and st.f.const(("disc", v)) == 0):
                was[e.loc] = (_, v)
                continue
            out.append(e)
    return out


def stored(st, self_, which):
    """value left in a cell, None if untouched"""
    for e in reversed(st.ev):
        if e.k == "write":
            l = about(e.loc, self_)
            if l == which:
                return e.val
            if l[0] == which[0] and l[1] == which[1][: len(l[1])]:
                v = e.val
                for s in which[1][len(l[1]):]:
                    v = field(v, s[1])
                return v
    return None


def running(st, self_, which):
    """is the clock known to run (1) / be paused (0) when entered?"""
    out = set()
    for e in st.ev:
        if e.k != "lock":
            continue
        for x in [e.val] + [q[1] for q in st.f.eq if q[0] == "disc" and q[1][0] == "f" and q[1][1] == e.val]:
            if about(cell(st, x)[0], self_) == which:
                c = st.f.const(("disc", x))
                if c is not None:
                    out.add((c, x))
        break_ = [w for w in st.ev if w.k == "write"]
    return out


def first_known(st, self_, which):
    got = running(st, self_, which)
    # locks taken again give fresh values; only the knowledge from before the first write counts
    lim = min([i for i, e in enumerate(st.ev) if e.k == "write" and e.loc[0][0] == "P"] + [len(st.ev)])
    ks = {c for c, x in got if cell(st, x)[1] is not None and cell(st, x)[1] <= lim}
    return ks.pop() if len(ks) == 1 else None


def walk(st):
    held = []
    for i, e in enumerate(st.ev):
        yield i, e, list(held)
        if e.k == "lock":
            held.append(e)
        elif e.k == "unlock":
            held = [h for h in held if h.n != e.n]


def balanced(st):
    return len(find(st, "lock")) == len(find(st, "unlock"))


@rule("clock.ops", "C13", "a clock reading is base (+ host time since start while running); pause folds the running stretch into the base, resume restarts at the same reading, advance adds exactly the amount; refused calls, and an advance beyond what can be represented, change nothing and leave nothing locked", configs=TEST, only=True)
def ops(o):
    base, run = shape(o)

    def refused(r, st, want, what):
        o.path(r, st, first_known(st, r.params[0], run) == want, what)
        o.path(r, st, not lockedwrites(st), "a refused call leaves the clock as it was")
        o.path(r, st, balanced(st), "a refused call leaves no lock of the clock held")

    # pause
    r = o.run(o.p.method(CK, "pause"), opaque=[NOWJS])
    s = r.params[0]
    kinds = set()
    for st in r.states:
        kinds.add(st.exit.k)
        if st.exit.k == "panic":
            refused(r, st, 0, "pausing is refused only when the clock is paused already")
            continue
        b, u = stored(st, s, base), stored(st, s, run)
        okk = st.exit.k == "return" and b is not None and b[0] == "app" and b[1] == "iadd" and about(cell(st, b[2])[0], s) == base
        d = b[3] if okk else UNIT
        okk = okk and d[0] == "app" and d[1] == "idiff" and js(st, d[2]) and d[3][0] == "f" and d[3][2] == "Some.0" and about(cell(st, d[3][1])[0], s) == run and st.f.const(("disc", d[3][1])) == 1
        o.path(r, st, okk, "pausing adds exactly the running stretch to the base")
        o.path(r, st, u is not None and variant(u) == "None", "pausing stops the clock")
        o.path(r, st, balanced(st), "no lock is left held")
    o.need(kinds == {"return", "panic"}, "pausing can succeed and can be refused", r.body["span"])
    # resume
    r = o.run(o.p.method(CK, "resume"), opaque=[NOWJS])
    s = r.params[0]
    kinds = set()
    for st in r.states:
        kinds.add(st.exit.k)
        if st.exit.k == "panic":
            refused(r, st, 1, "resuming is refused only when the clock is running")
            continue
        b, u = stored(st, s, base), stored(st, s, run)
        o.path(r, st, st.exit.k == "return" and first_known(st, s, run) == 0, "only a paused clock is resumed")
        o.path(r, st, b is None or about(cell(st, b)[0], s) == base, "resuming leaves the base alone")
        o.path(r, st, u is not None and variant(u) == "Some" and js(st, field(u, "Some.0")), "resuming counts from the host's current time")
        o.path(r, st, balanced(st), "no lock is left held")
    o.need(kinds == {"return", "panic"}, "resuming can succeed and can be refused", r.body["span"])
    # advance
    r = o.run(o.p.method(CK, "advance"), opaque=[NOWJS])
    s, dur = r.params
    kinds = set()
    for st in r.states:
        for i, e, held in walk(st):
            if e is not None and e.k == "partial" and e.d.get("op") in ("iadd", "isub"):
                o.path(r, st, not held, "an amount too large to be added is refused with nothing locked", e)
        far = [k for k, c in st.f.eq.items() if k[:2] == ("app", "iadd_fits") and c == 0 and k[3] == dur and about(cell(st, k[2])[0], s) == base]
        if st.exit.k == "panic" and far:
            kinds.add("far")
            o.path(r, st, first_known(st, s, run) == 0 and not lockedwrites(st) and balanced(st), "an amount too large to be added is refused, changes nothing and leaves nothing locked")
            continue
        kinds.add(st.exit.k)
        if st.exit.k == "panic":
            refused(r, st, 1, "advancing is refused only when the clock is running")
            continue
        b, u = stored(st, s, base), stored(st, s, run)
        o.path(r, st, st.exit.k == "return" and first_known(st, s, run) == 0, "only a paused clock is advanced")
        o.path(r, st, b is not None and b[:2] == ("app", "iadd") and about(cell(st, b[2])[0], s) == base and b[3] == dur, "advancing adds exactly the duration to the base")
        o.path(r, st, u is None or about(cell(st, u)[0], s) == run, "advancing leaves the clock paused")
        o.path(r, st, balanced(st), "no lock is left held")
    o.need({"return", "panic"} <= kinds, "advancing can succeed and can be refused", r.body["span"])
    # paused
    r = o.run(o.p.method(CK, "paused"), opaque=[NOWJS])
    s = r.params[0]
    n = 0
    for st in r.states:
        okk = st.exit.k == "return" and not lockedwrites(st)
        for v in (0, 1):
            f = under(st, st.ret, v) if okk else None
            if f is not None:
                n += 1
                st2 = st.copy()
                st2.f = f
                okk = okk and first_known(st2, s, run) == 1 - v
        o.path(r, st, okk, "answers whether the clock is paused")
    o.need(n >= 2, "paused answers both ways", r.body["span"])
    # new
    r = o.run(o.p.method(CK, "new"), opaque=[NOWJS])
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "creating the clock does not panic"):
            continue
        v = value_at(r, st, st.ret, base), value_at(r, st, st.ret, run)
        b, u = v
        if variant(u) == "Some":
            o.path(r, st, js(st, b) and field(u, "Some.0") == b, "a new clock starts at the host's time, running from there")
            o.path(r, st, not r.params or st.f.truth(compare("Eq", r.params[0], I(0))) is True, "a clock runs from its creation only when it was not to be paused")
        else:
            okk = js(st, b) or b[:2] == ("app", "iadd") and js(st, b[2]) and b[3][:2] == ("app", "idiff") and b[3][3] == b[2] and js(st, b[3][2])
            o.path(r, st, okk and variant(u) == "None" and r.params and st.f.const(r.params[0]) == 1, "a clock created paused shows the host's time and is paused")


def value_at(r, st, clock, which):
    """value of a cell (place relative to ("self",)) of a freshly built clock"""
    def ev(t):
        if t == ("*", ("self",)):
            return clock
        if t[0] == "f":
            return field(ev(t[1]), t[2])
        if t[0] == "*":
            p = ev(t[1])
            return r.e.read(st, p[1]) if p[0] == "ref" else ("*", p)
        return t
    root, path = which
    v = ev(root[1]) if root[0] == "P" else UNIT
    if v[0] == "ref":
        v = r.e.read(st, v[1])
    for s in path:
        v = field(v, s[1])
    return v


@rule("clock.global", "C13 C15", "the crate's clock is one object, installed once even when first uses race, and never replaced; Instant::now is its reading", configs=TEST, only=True)
def glob(o):
    name = "timer::clock::CLOCK"
    census(o, name, lambda st, e: e.op == "load" and acq(e.ords[0]) or e.op == "cas" and e.old == I(0) and (not e.success or rel(e.ords[0])),
           "the clock is only read (acquire) or installed over null (release)", extra=[CLOCKOP])
    r = o.run(o.p.fn("timer::clock", "clock"), opaque=[CLOCKOP])
    kinds = set()
    for st in r.states:
        cas = [e for e in st.ev if e.k == "atomic" and e.op == "cas" and e.loc[0] == ("G", name)]
        lds = [e for e in st.ev if e.k == "atomic" and e.op == "load" and e.loc[0] == ("G", name)]
        made = [st.ev[i].ret for i in calls(st, r"Clock::new$")]
        won = [e for e in cas if e.success]
        if not o.path(r, st, st.exit.k == "return", "always returns, also when first uses race"):
            continue
        got = field(st.ret, "inner")
        if won:
            kinds.add("installed")
            o.path(r, st, len(made) == 1 and won[0].val == field(made[0], "inner"), "installs the clock it made")
            args = [v for i in calls(st, r"Clock::new$") for v in st.ev[i].vals]
            o.path(r, st, all(st.f.const(v) == 0 for v in args), "the crate's clock starts running")
            again = any(e.ret == got for e in lds) and st.f.const(got) != 0 or got == won[0].val
            o.path(r, st, again, "returns the clock installed")
            g = got if got != won[0].val else field(made[0], "inner")
            a, b = owned(st, got), given(st, field(made[0], "inner"))
            o.path(r, st, (a == 1 and b == 1) or (got == won[0].val and 1 + a == 1 and b == 1), "the registration keeps its reference")
        else:
            lost = [e for e in cas if not e.success and e.ret == got]
            kinds.add("lost" if lost else "found")
            o.path(r, st, (bool(lost) or any(e.ret == got for e in lds)) and st.f.truth(compare("Eq", got, I(0))) is False, "returns the clock installed")
            for m in made:
                o.path(r, st, given(st, field(m, "inner")) == 0 and 1 + owned(st, field(m, "inner")) == 0, "a clock that came too late is released")
            o.path(r, st, owned(st, got) == 1 and given(st, got) == 0, "the registration keeps its reference")
    o.need(kinds >= {"installed", "found"}, "clock() installs and finds", r.body["span"], str(kinds))
    r = o.run(o.p.method("std::Instant", "now"), opaque=[GETCLOCK, CLOCKOP, NOWJS], instant_native=False)
    for st in r.states:
        c = calls(st, CLOCKOP)
        g = calls(st, GETCLOCK)
        okk = st.exit.k == "return" and len(c) == 1 and len(g) == 1 and st.ev[c[0]].path.endswith("::now") and st.ev[c[0]].vals[0] == st.ev[g[0]].ret and st.ret == st.ev[c[0]].ret
        o.path(r, st, okk and not calls(st, NOWJS), "is the reading of the crate's clock")


HANDLE_ = r"^<timer::TimerHandle as std::default::Default>::default$"


@rule("testutil.ops", "C13 C14", "pause/resume/advance change the crate's clock and then wake the default timer's driver", configs=TEST, only=True)
def util(o):
    for name in ("pause", "resume", "advance"):
        f = o.p.fn("tokio::test_utils", name)
        r = o.run(f, opaque=[HANDLE_, CLOCKOP, GETCLOCK])
        dur = None
        if name == "advance":
            dur = r.params[0]
            st0 = r.states[0]
            if not o.need(len(r.states) == 1 and st0.exit.k == "return" and not [e for e in st0.ev if e.k not in ("enter", "branch")], "advance does nothing before it is awaited", f["span"]):
                continue
            r = async_run(o, f, r, [HANDLE_, CLOCKOP, GETCLOCK])
        kinds = set()
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return" and (name != "advance" or variant(st.ret) == "Ready"), "completes at once"):
                continue
            c = [i for i in calls(st, CLOCKOP) if not re.search("::(now|paused)$", st.ev[i].path)]
            g = calls(st, GETCLOCK)
            okk = len(c) == 1 and st.ev[c[0]].path.endswith("::" + name) and any(st.ev[i].ret == st.ev[c[0]].vals[0] for i in g)
            if not o.path(r, st, okk, "changes the crate's clock, once, as asked"):
                continue
            if dur is not None:
                o.path(r, st, st.ev[c[0]].args[1] == dur, "advances by the duration asked for", st.ev[c[0]])
            h = [st.ev[i] for i in calls(st, HANDLE_)]
            ups = [e for e in st.ev if e.k == "upgrade" and any(e.val == field(x.ret, "inner") for x in h)]
            if not o.path(r, st, bool(ups), "turns to the default timer"):
                continue
            alive = [e for e in ups if st.f.truth(e.cond)]
            if not alive:
                kinds.add("gone")
                continue
            kinds.add("woken")
            w = [i for i in find(st, "wake_task") if i > c[0] and fld(st.ev[i].loc, "waker") == (("P", ("app", "up", alive[0].val)), ())]
            o.path(r, st, bool(w), "wakes the timer's driver after the change", st.ev[c[0]])
        o.need(kinds == {"gone", "woken"}, "test_utils::%s has its outcomes" % name, f["span"], str(kinds))


def async_run(o, f, r, opaque, **kw):
    """the body of an async fn, started with the state its call built"""
    env = r.states[0].ret
    body = [b for b in o.p.bodies.values() if b["local"] and b["closure"] and re.match("^" + re.escape(Program.norm(f["path"])) + r"::\{closure#0\}$", Program.norm(b["path"]))]
    if len(body) != 1:
        raise AnalysisError("body of async fn " + f["path"])
    root = ("P", ("s", next(FRESH), "coroutine"))
    return o.run(body[0], opaque=opaque, args={1: root[1]}, mem=coro_mem(root, env), **kw)


def coro_mem(root, env):
    m = {(root, (("f", n),)): v for n, v in env[3]}
    m[(root, (("f", "$state"),))] = I(0)
    return m


def resume(o, r, st, opaque, **kw):
    """the same body polled again after st returned pending"""
    root = ("P", r.params[0])
    mem = {k: v for k, v in st.mem.items() if k[0] == root or k[0][0] == "T"}
    return o.run(r.body, opaque=opaque, args={1: r.params[0]}, mem=mem, **kw)


# ------------------------------------------------------------------ who may call
def callees(p, b):
    """every function a body calls or mentions"""
    out, todo = set(), [b["blocks"], b.get("promoted")]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "fn":
                out.add(Program.norm(x["path"] if "path" in x else p.types[x["t"]].get("path") or p.tname(x["t"])))
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


FOREIGN = r"^std::time::(Instant|SystemTime)::(now|elapsed)$|^js_sys::Date::(now|new_0)|^std::thread::(sleep|park)"


@rule("clock.callers", "C15", "the host's clock is read only by the crate's clock and to date host callbacks; host timeouts are requested only by the driver; no other clock is used", configs=("default", "test"))
def callers(o):
    im = imports(o.p)
    timeouts = {k for k, v in im.items() if v in ("setTimeout", "setInterval", "requestAnimationFrame", "queueMicrotask")} | {"js::set_timeout"}
    reading = {k for k, v in im.items() if v in ("now", "performance", "timeStamp", "Date")} | {"js::performance_now"}
    n = 0
    for b in o.p.bodies.values():
        if not b["local"] or b["shim"]:
            continue
        me, mod = Program.norm(b["path"]), Program.norm(b["mod"])
        cs = callees(o.p, b)
        o.fns.setdefault(me, 0)
        n += 1
        for c in sorted(cs):
            if c in reading:
                o.need(mod in ("js", "std"), "%s: the host's performance clock is read only for Instant" % me, b["span"], c)
            if c in timeouts:
                o.need(mod in ("js", "timer::global"), "%s: host timeouts are requested only by the driver" % me, b["span"], c)
            if c == "std::Instant::now_js":
                o.need(mod in ("std", "timer::clock", "timer::global"), "%s: the host's clock is read only by the crate's clock and the driver" % me, b["span"], c)
            if re.search(FOREIGN, c):
                o.need(mod == "std" and re.search(r"Date::now", c) and "SystemTime" in me, "%s: no other clock is used" % me, b["span"], c)
            if c == "std::SystemTime::now":
                o.need(mod == "std", "%s: the wall clock decides nothing in the crate" % me, b["span"], c)
    o.need(n > 100, "the functions of the crate are found", "", str(n))
    # Instant's own functions use the public clock
    for m in ("elapsed",):
        r = o.run(o.p.method("std::Instant", m), opaque=[NOWJS])
        for st in r.states:
            o.path(r, st, not calls(st, NOWJS) and len(find(st, "now")) == 1, "elapsed time is counted by the public clock")
