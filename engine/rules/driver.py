"""timer::global, js: the background driver and the host"""
from framework import *
from rules.sleep import is_upgraded

I32MAX = (1 << 31) - 1
SCHED = r"^timer::global::schedule_callback$"
CLOCKS = [r"^timer::clock::clock$", r"^timer::clock::Clock::paused$"]
NOWJS = r"^std::Instant::now_js$"
POLLT = r"^<timer::Timer as .*Future>::poll$"
ADV = r"^timer::Timer::advance_to$"
NEXT = r"^timer::Timer::next_event$"
RUN = r"^timer::global::run$"


def imports(p):
    """{path of the binding: name of the host function it binds}"""
    out = {}
    for b in p.bodies.values():
        m = re.search(r"^(.*)::__wbg_([A-Za-z0-9]+(?:_[A-Za-z0-9]+)*)_[0-9a-f]{16}$", Program.norm(b["path"])) if b["local"] else None
        if m:
            out[m.group(1)] = m.group(2)
    return out


def host(p):
    return ["^" + re.escape(k) + "$" for k in imports(p)]


def host_calls(o, st, name):
    im = imports(o.p)
    return [e for e in st.ev if e.k == "call" and im.get(e.path) == name]


def closures_of(p, fn):
    """closure bodies written directly in fn"""
    base = Program.norm(fn["path"])
    return [b for b in p.bodies.values() if b["local"] and b["closure"] and re.match("^" + re.escape(base) + r"::\{closure#\d+\}$", Program.norm(b["path"]))]


def is_global(st, t):
    return any(e.k == "call" and re.search(r"js_sys::global$", e.path) and e.ret == t for e in st.ev)


def casted(st, t, depth=0):
    """follow JsCast conversions back to the value converted"""
    for e in st.ev:
        if e.k == "call" and re.search(r"JsCast::unchecked_(ref|into)$", e.decl) and depth < 4:
            if e.ret == t or t[0] == "ref" and t[1][0] == ("P", e.ret) and not t[1][1]:
                return casted(st, e.vals[0], depth + 1)
    return t


def of_global(st, e):
    """e is called on the global object"""
    return is_global(st, casted(st, e.args[0])) or is_global(st, casted(st, e.vals[0]))


@rule("host.bindings", "C09 C15", "set_timeout asks the host's setTimeout with exactly its callback and delay; performance_now is the host's performance.now()")
def bindings(o):
    im = imports(o.p)
    r = o.run(o.p.fn("js", "set_timeout"), opaque=host(o.p))
    h, t = r.params
    for st in r.states:
        c = host_calls(o, st, "setTimeout")
        okk = st.exit.k == "return" and len(c) == 1
        okk = okk and of_global(st, c[0]) and c[0].args[1] == h and c[0].args[2] == t and st.ret == c[0].ret
        o.path(r, st, okk, "calls setTimeout on the global object with the callback and delay it was given, once, and reports the outcome")
    r = o.run(o.p.fn("js", "performance_now"), opaque=host(o.p))
    for st in r.states:
        a, b = host_calls(o, st, "performance"), host_calls(o, st, "now")
        okk = st.exit.k == "return" and len(a) == 1 and len(b) == 1 and of_global(st, a[0]) and b[0].vals[0] == a[0].ret and st.ret == b[0].ret
        o.path(r, st, okk, "reads performance.now() of the global object")
    o.need({"setTimeout", "performance", "now"} <= set(im.values()), "the host functions are bound by their names", "", str(im))


def sched_run(o):
    f = o.p.fn("timer::global", "schedule_callback")
    cl = ["^" + re.escape(Program.norm(b["path"])) + "$" for b in closures_of(o.p, f)]
    return f, o.run(f, opaque=host(o.p) + CLOCKS + cl), cl


def par(o, f, rx):
    """the parameter of f whose type matches"""
    c = [i for i in range(f["argc"]) if re.search(rx, o.p.tname(f["locals"][i + 1][0]))]
    if len(c) != 1:
        raise AnalysisError("parameter %s of %s" % (rx, f["path"]))
    return c[0]


def sched_pars(o, f):
    return par(o, f, r"^std::sync::Arc<"), par(o, f, r"Duration$"), par(o, f, r"^std::option::Option<.*Instant>$")


def unpaused(st):
    """what is known about the clock being paused on this path (None: not asked)"""
    c = [e for e in st.ev if e.k == "call" and e.path.endswith("Clock::paused")]
    return st.f.const(c[-1].ret) if c else None


TAGS.update({
    "exactly one callback is arranged": "C09 C14 C31",
    "with nothing outstanding it does not spin": "C09 C31",
    "waits no longer than until the next event, and only returns at once if that is due": "C09 C14 C02 C31",
    "schedules the next run of this driver, once": "C09 C14 C31",
    "records when that callback is due, by the host's clock": "C09 C31",
    "remembers the callback that is pending": "C09 C31",
    "while the clock is paused no callback is asked for (it would run at once, and again)": "C09 C14 C31 C35",
    "another callback is asked for only when none that is pending comes as early": "C09 C31",
    "the callback that is running is no longer pending": "C09",
    "only a callback that is asked for is remembered as pending": "C09",
    "that callback stays remembered": "C09 C31",
    "schedules its driver at once": "C09 C14 C31",
})


@rule("driver.schedule", "C09 C14", also="C31", text="schedule_callback leaves a host callback that runs the driver after at most the delay asked for, capped at what the host can represent; with a paused clock it runs the driver at once", configs=("default", "test"))
def schedule(o):
    f, r, cl = sched_run(o)
    di, wi, ui = sched_pars(o, f)
    drv, when, due = r.params[di], r.params[wi], r.params[ui]
    ms = ("app", "as_millis", when)
    kinds = set()
    for st in r.states:
        tm = host_calls(o, st, "setTimeout")
        direct = [e for e in st.ev if e.k == "call" and any(re.search(x, e.path) for x in cl)]
        if st.exit.k == "panic":
            o.path(r, st, len(tm) == 1 and st.f.const(("disc", tm[0].ret)) == 1, "panics only when the host refuses the timeout")
            continue
        if not o.path(r, st, st.exit.k == "return" and len(tm) + len(direct) == 1, "exactly one callback is arranged"):
            continue
        if direct:
            kinds.add("direct")
            o.path(r, st, unpaused(st) == 1, "the driver runs at once only while the clock is paused")
            env = direct[0].args[0]
            if env[0] == "ref":
                env = direct[0].vals[0]
        else:
            kinds.add("host")
            if o.x.config == "test":
                held = any(e.k == "is_locked" and st.f.const(e.ret) == 1 or e.k == "lock_busy" for e in st.ev)
                o.path(r, st, unpaused(st) == 0 or held, "with a paused clock the driver runs at once, unless it is running already")
            o.path(r, st, st.f.const(("disc", tm[0].ret)) == 0, "a refusal by the host is not ignored")
            mk = [e for e in st.ev if e.k == "call" and re.search(r"once_into_js$", e.path)]
            env = mk[0].args[0] if len(mk) == 1 and casted(st, tm[0].args[1]) == mk[0].ret else UNIT
            d = tm[0].args[2]
            o.path(r, st, delay_ok(st, d, ms), "the host's delay is the delay asked for, or the greatest representable one when that is longer", tm[0])
        vals = [v for _, v in env[3]] if env[0] == "ag" and env[1].startswith("closure:") else []
        o.path(r, st, any(same_arc(v, drv) for v in vals) and due in vals and len(vals) == 2, "the callback runs this driver and knows when it is due")
    o.need("host" in kinds and (kinds == {"host"} if o.x.config == "default" else "direct" in kinds), "schedule_callback uses the host", f["span"], str(kinds))


def same_arc(v, a):
    return v == a


def delay_ok(st, d, ms):
    if is_i(d) and 0 < sgn(d[1], 32) <= I32MAX:
        return st.f.holds("le", I(d[1]), ms) is True
    if ms[2][0] == "dur" and is_i(d):
        return d[1] == ms[2][1] // 10**6
    return cast_of(d) == ms and (st.f.holds("le", ms, I(I32MAX)) is True or st.f.holds("lt", ms, I(I32MAX + 1)) is True)


def cast_of(d):
    if d[0] in ("cast", "app"):
        for x in d[1:]:
            if isinstance(x, tuple) and x and x[0] == "app" and x[1] == "as_millis":
                return x
    return None


def callback(o):
    f, r, cl = sched_run(o)
    di, wi, ui = sched_pars(o, f)
    for st in r.states:
        for e in st.ev:
            if e.k == "call" and re.search(r"once_into_js$", e.path) and e.args[0][0] == "ag":
                return f, r, e.args[0]
    raise AnalysisError("the driver's callback")


def cb_run(o):
    f, r0, env = callback(o)
    b = next((b for b in closures_of(o.p, f) if "closure:" + b["path"] == env[1] or env[1].endswith(b["path"])), None)
    if b is None:
        raise AnalysisError("body of the driver's callback")
    di, wi, ui = sched_pars(o, f)
    mem = {}
    if o.p.types[b["locals"][1][0]].get("k") in ("ref", "ptr"):    # the closure only borrows what it holds
        mem[(("T", -1), ())] = env
        env = ("ref", (("T", -1), ()))
    r = o.run(b, opaque=[SCHED, POLLT, ADV, NEXT, NOWJS] + CLOCKS, args={1: env}, mem=mem, key="cb")
    return f, r, r0.params[di], r0.params[ui]


@rule("driver.callback", "C09 C14 C02", also="C31", text="each driver run: takes in the queue under the driver's waker, expires everything due by the time read, then leaves a callback pending no later than the next event (its own, one already pending, or - paused - none)", configs=("default", "test"))
def run_cb(o):
    f, r, drv, due = cb_run(o)
    di, wi, ui = sched_pars(o, f)
    data = (("P", drv), (("f", "$data"),))
    nloc = (("P", drv), (("f", "$data"), ("f", "next_callback")))
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "a driver run does not panic"):
            continue
        lk = [i for i in find(st, "lock") if st.ev[i].loc == data]
        ul = [i for i in find(st, "unlock") if st.ev[i].loc == data]
        pl, ad, nx, sc = calls(st, POLLT), calls(st, ADV), calls(st, NEXT), calls(st, SCHED)
        if not o.path(r, st, len(lk) == 1 and len(ul) == 1, "the driver is locked once and released"):
            continue
        if not o.path(r, st, len(pl) >= 1 and len(ad) >= 1 and lk[0] < pl[0] < ad[0] < ul[0], "takes in the queue, then expires, under the driver's lock"):
            continue
        cx = st.ev[pl[0]].args[1]
        w = ctx_waker(r, st, cx)
        o.path(r, st, w is not None and waker_data(r, st, w, drv), "the queue is taken in with a waker that runs this driver", st.ev[pl[0]])
        tl = timer_loc(st.ev[pl[0]].args[0])
        o.path(r, st, tl is not None and tl[0] == ("P", drv) and all(timer_loc(st.ev[i].args[0]) == tl for i in ad + nx), "acts on the driver's own timer")
        now = st.ev[ad[-1]].args[1]
        nows = [i for i in find(st, "now") if st.ev[i].ret == now]
        o.path(r, st, bool(nows) and lk[0] < nows[0] < ad[-1], "expires up to the current time, read in this run", st.ev[ad[-1]])
        pend = field(st.ev[lk[0]].val, "next_callback")
        mine = (st.f.const(("disc", due)) == 1 and st.f.holds("eq", field(due, "Some.0"), field(pend, "Some.0")) is True and st.f.const(("disc", pend)) == 1)
        writes = [i for i in find(st, "write") if st.ev[i].loc == nloc]
        vals = [st.ev[i].val for i in writes]
        if sc:
            kinds.add("scheduled")
            i = sc[0]
            a = st.ev[i].args
            o.path(r, st, len(sc) == 1 and a[di] == drv, "schedules the next run of this driver, once", st.ev[i])
            if not o.path(r, st, len(nx) == 1 and ad[-1] < nx[0], "looks at the next event after expiring", st.ev[i]):
                continue
            d = a[wi]
            wait_ok(o, r, st, st.ev[nx[0]].ret, now, d, st.ev[i])
            dv = field(a[ui], "Some.0")
            o.path(r, st, variant(a[ui]) == "Some" and host_due(st, dv, d), "records when that callback is due, by the host's clock", st.ev[i])
            o.path(r, st, bool(vals) and vals[-1] == a[ui], "remembers the callback that is pending", st.ev[i])
            o.path(r, st, o.x.config == "default" or unpaused(st) == 0, "while the clock is paused no callback is asked for (it would run at once, and again)", st.ev[i])
            fresh = st.f.const(("disc", pend)) == 0 or mine or st.f.const(("disc", pend)) == 1 and st.f.holds("lt", dv, field(pend, "Some.0")) is True
            o.path(r, st, fresh, "another callback is asked for only when none that is pending comes as early", st.ev[i])
        elif unpaused(st) == 1:
            kinds.add("paused")
        else:
            kinds.add("pending")
            if not o.path(r, st, len(nx) == 1 and ad[-1] < nx[0], "looks at the next event after expiring"):
                continue
            p = field(pend, "Some.0")
            cmp = [(b_ if a_ == p else None) for a_, b_, op in st.f.ord if op in ("le", "lt", "eq") and a_ == p] + [a_ for a_, b_, op in st.f.ord if op == "eq" and b_ == p]
            good = False
            for x in cmp:
                d = due_delay(st, x)
                if d is not None and wait_ok(o, r, st, st.ev[nx[0]].ret, now, d, None, quiet=True):
                    good = True
            o.path(r, st, st.f.const(("disc", pend)) == 1 and good, "schedules nothing only when a callback is pending that comes no later")
            notmine = st.f.const(("disc", due)) == 0 or st.f.rel(field(due, "Some.0"), p) in ("ne", "lt", "gt")
            o.path(r, st, notmine, "the callback relied on is not the one that is running")
            o.path(r, st, not vals, "that callback stays remembered")
        if mine:
            o.path(r, st, bool(vals), "the callback that is running is no longer pending")
        for v in vals:
            o.path(r, st, variant(v) == "None" or bool(sc), "only a callback that is asked for is remembered as pending")
    want = {"scheduled", "pending"} | ({"paused"} if o.x.config == "test" else set())
    o.need(kinds == want, "a driver run has all its outcomes", r.body["span"], str(kinds))


def timer_loc(a):
    while a[0] == "ag" and len(a[3]) == 1:
        a = a[3][0][1]
    return a[1] if a[0] == "ref" else None


def ctx_waker(r, st, cx):
    v = r.e.read(st, r.e.deref(st, cx)) if cx[0] == "ref" else cx
    if v[0] == "app" and v[1] == "ctx":
        return v[2]
    w = field(v, "waker")
    return w


def waker_data(r, st, w, drv):
    """w is a waker made from an Arc<Waker> holding (a clone of) the driver"""
    for _ in range(6):
        if w[0] == "ref":
            w = r.e.read(st, w[1])
        elif w[0] == "*":
            w = w[1]
        elif w[0] == "app" and w[1] in ("waker_of", "wclone"):
            w = w[2]
            if w[0] == "ref":
                w = r.e.read(st, r.e.deref(st, w))
        else:
            break
    return w[0] == "ag" and any(v == drv for _, v in w[3])


def wait_ok(o, r, st, ne, now, d, ev, quiet=False):
    """d is a legitimate time to wait for the next event ne, seen from now"""
    isn = st.f.const(("disc", ne))
    if isn == 0:
        okk = d[0] == "dur" and d[1] >= 10**6 or variant(ne) == "None"
        what = "with nothing outstanding it does not spin"
    else:
        at = field(ne, "Some.0")
        gap = ("app", "idiff", at, now)
        late = st.f.holds("le", at, now)
        if late is True:
            okk = d == ("dur", 0) or d == gap
        else:
            okk = isn == 1 and (d == gap or d[0] == "dur" and (d[1] >= 10**9 and st.f.holds("le", d, gap) is True))
        what = "waits no longer than until the next event, and only returns at once if that is due"
    return okk if quiet else o.path(r, st, okk, what, ev)


def host_now(st, t):
    return any(e.k == "call" and re.search(NOWJS, e.path) and e.ret == t for e in st.ev)


def due_delay(st, t):
    """the delay d if t is (host's now) + d"""
    if host_now(st, t):
        return ("dur", 0)
    if t[0] == "app" and t[1] == "iadd" and host_now(st, t[2]):
        return t[3]
    return None


def host_due(st, t, d):
    return due_delay(st, t) == d


@rule("driver.wake", "C09 C14", also="C31", text="waking the driver schedules a run of it without delay", configs=("default", "test"))
def wake(o):
    f = o.p.fn("timer::global", "schedule_callback")
    di, wi, ui = sched_pars(o, f)
    r = o.run(o.p.method("timer::global::Waker", "wake_by_ref", "ArcWake"), opaque=[SCHED])
    src = r.params[0]
    for st in r.states:
        sc = calls(st, SCHED)
        okk = st.exit.k == "return" and len(sc) == 1
        if okk:
            a = st.ev[sc[0]].args
            okk = a[wi] == ("dur", 0) and variant(a[ui]) == "None" and a[di][0] == "f" and a[di][1] == ("*", ("*", src))
        o.path(r, st, okk, "schedules its driver at once")
    w = o.p.method("timer::global::Waker", "wake", "ArcWake", must=False)
    if w:
        r = o.run(w, opaque=[SCHED])
        for st in r.states:
            sc = calls(st, SCHED)
            o.path(r, st, st.exit.k == "return" and len(sc) == 1 and st.ev[sc[0]].args[wi] == ("dur", 0), "schedules its driver at once")


@rule("driver.run", "C09 C08", "global::run starts one driver for a new timer at once and returns a handle to that timer", configs=("default", "test"))
def run_(o):
    f = o.p.fn("timer::global", "schedule_callback")
    di, wi, ui = sched_pars(o, f)
    r = o.run(o.p.fn("timer::global", "run"), opaque=[SCHED])
    for st in r.states:
        sc = calls(st, SCHED)
        if not o.path(r, st, st.exit.k == "return" and len(sc) == 1, "starts exactly one driver"):
            continue
        a = st.ev[sc[0]].args
        o.path(r, st, a[wi] == ("dur", 0) and variant(a[ui]) == "None", "the first run is asked for at once", st.ev[sc[0]])
        h = field(st.ret, "inner")
        mx = r.e.read(st, r.e.deref(st, a[di])) if a[di][0] == "ref" else UNIT
        d = field(mx, "$data")
        inner = field(field(d, "timer"), "inner")
        o.path(r, st, h[:2] == ("app", "weak") and h[2] == inner, "the handle returned refers to the driver's timer")
        o.path(r, st, variant(field(d, "next_callback")) == "None", "no callback is remembered before the first")


# ------------------------------------------------------------------ the global handle
GH = ("G", "timer::HANDLE_FALLBACK")


def on_static(e, name):
    return e.k == "atomic" and e.loc == (("G", name), ())


def census(o, name, okop, what, extra=()):
    """every function that mentions the static only uses it as okop allows"""
    bodies = [b for b in o.p.bodies.values() if b["local"] and mentions(b, name)]
    done = set()
    n = 0
    for b in bodies:
        if b["path"] in done:
            continue
        done.add(b["path"])
        r = o.run(b, opaque=[RUN] + CLOCKS[1:] + host(o.p) + [NOWJS] + list(extra))
        for st in r.states:
            for e in st.ev:
                if on_static(e, name):
                    n += 1
                    o.path(r, st, okop(st, e), what, e)
                elif "args" in e.d and any(x == ("ref", (("G", name), ())) for x in e.args):
                    o.path(r, st, False, what, e)
                elif e.k == "write" and e.loc[0] == ("G", name):
                    o.path(r, st, False, what, e)
    o.need(n > 0, "uses of %s are found" % name)


def mentions(b, name):
    import json
    last = name.rsplit("::", 1)[-1]
    return ('"%s"' % name) in json.dumps(b["blocks"]) or ("::" + last + '"') in json.dumps(b["blocks"])


def owned(st, target):
    """references minus releases of the pointer `target` on this path"""
    n = 0
    for e in st.ev:
        if e.k in ("from_raw", "weak_clone", "arc_clone", "unforget") and holds(e.val, target):
            n += 1
        elif e.k in ("into_raw", "forget") and holds(e.val, target):
            n -= 1
        elif e.k == "drop" and re.search(r"TimerHandle$|Clock$|Weak<|Arc<", e.ty) and holds(e.val, target):
            n -= 1
    return n


def given(st, target):
    """references to `target` left with a raw pointer, minus those taken back"""
    g = [e for e in st.ev if e.k in ("into_raw", "forget") and holds(e.val, target)]
    return len(g) - sum(1 for e in st.ev if e.k in ("from_raw", "unforget") and holds(e.val, target))


def inner_of(v):
    return field(v, "inner") if v[0] == "ag" and v[1].endswith("TimerHandle") else v


def holds(v, target):
    return v == target or field(v, "inner") == target


@rule("handle.default", "C08", "TimerHandle::default adopts the installed handle or installs a new one by compare-and-swap from null; handing one out leaves the registration's reference count alone", configs=("default",))
def default(o):
    name = GH[1]
    census(o, name, lambda st, e: e.op == "load" and acq(e.ords[0]) or e.op == "cas" and e.old == I(0) and (not e.success or rel(e.ords[0])) and acq(e.ords[1] if len(e.ords) > 1 else "SeqCst"),
           "the global handle is only read (acquire) or installed over null (release)")
    kinds = set()
    for m in (("default", "Default"), ("set_as_global_fallback", None)):
        r = o.run(o.p.method("timer::TimerHandle", m[0], m[1]), opaque=[RUN])
        for st in r.states:
            ops = [e for e in st.ev if on_static(e, name)]
            cas = [e for e in ops if e.op == "cas"]
            if st.exit.k == "panic":
                o.path(r, st, bool(ops) and ops[-1].op == "load" and st.f.const(ops[-1].ret) == 0 and any(not e.success for e in cas), "panics at most when a lost race left no winner (excluded: the slot is never cleared)")
                continue
            if not o.path(r, st, st.exit.k == "return", "ends"):
                continue
            won = [e for e in cas if e.success]
            for e in cas:
                o.path(r, st, not e.weak, "installation is a strong compare-and-swap", e)
            if m[0] == "set_as_global_fallback":
                h = field(r.params[0], "inner")
                o.path(r, st, len(cas) == 1 and cas[0].val == h, "installs the handle it was given", cas[0] if cas else None)
                o.path(r, st, (variant(st.ret) == "Ok") == bool(won), "reports whether it was installed")
                o.path(r, st, 1 + owned(st, h) == 0 and given(st, h) == (1 if won else 0), "an installed handle's reference is kept, a refused one's released")
                continue
            rn = calls(st, RUN)
            got = field(st.ret, "inner")
            if won:
                kinds.add("installed")
                h = field(st.ev[rn[0]].ret, "inner") if rn else UNIT
                o.path(r, st, len(rn) == 1 and won[0].val == h and inner_is(st.ret, st.ev[rn[0]].ret), "the handle installed is the new timer's, and is returned")
                o.path(r, st, 1 + owned(st, h) == 1 and given(st, h) == 1, "the registration keeps exactly one reference")
            else:
                kinds.add("adopted")
                ld = [e for e in ops if e.op == "load" and e.ret == got]
                o.path(r, st, bool(ld) and st.f.truth(compare("Eq", got, I(0))) is False, "the handle returned is the installed one")
                o.path(r, st, owned(st, got) == 1 and given(st, got) == 0, "handing it out leaves the registration's reference alone")
                first = [e for e in ops if e.op == "load"]
                o.path(r, st, not rn or bool(cas) and st.f.const(first[0].ret) == 0, "a new timer is started only when none is installed")
                for i in rn:
                    h = field(st.ev[i].ret, "inner")
                    o.path(r, st, 1 + owned(st, h) == 0 and given(st, h) == 0, "the loser of a race releases its own handle")
    o.need(kinds == {"installed", "adopted"}, "TimerHandle::default has all its outcomes")
    r = o.run(o.p.method("timer::TimerHandle", "clone", "Clone"))
    for st in r.states:
        src = ("f", ("*", r.params[0]), "inner")
        o.path(r, st, st.exit.k == "return" and field(st.ret, "inner") == src and sum(1 for e in st.ev if e.k == "weak_clone") == 1 and not find(st, "drop"), "a cloned handle refers to the same timer")


def inner_is(ret, h):
    return ret == h or field(ret, "inner") == field(h, "inner")
