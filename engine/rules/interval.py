"""tokio::interval"""
from framework import *
from arith import poly, padd, pmul, key, atom, ordered
from rules.sleep import deadline_after, sole_now, check_created, YEARS10
from rules.clock import async_run, resume

IV = "tokio::interval::Interval"
TOL = ("dur", 5 * 10**6)
READY = ("ag", "std::task::Poll", "Ready", (("0", UNIT),))
PENDING = ("ag", "std::task::Poll", "Pending", ())


def _spoll(c):
    c.ev("sleep_poll", loc=c.loc(0), cx=c.a[1])

    def out(s, v):
        e = s.ev[-1]
        s.ev[-1] = Ev(e.k, **dict(e.d, out=v[2]))
        return v
    return c.fork_free(lambda s: out(s, READY), lambda s: out(s, PENDING))


def _sreset(c):
    c.ev("sleep_reset", loc=c.loc(0), at=c.a[1])
    c.e.write(c.st, c.e.step(c.loc(0), ("f", "deadline")), c.a[1], c.site, log=False)
    return c.one(UNIT)


# what the sleep.* rules establish about these two
SLEEP_MODEL = {r"^<tokio::sleep::Sleep as .*Future>::poll$": _spoll, r"^tokio::sleep::Sleep::reset$": _sreset}


def behaviours(p):
    for t in p.types:
        if t.get("k") == "adt" and Program.norm(t["path"]) == "tokio::interval::MissedTickBehavior":
            return {v["n"]: int(v["d"]) for v in t["vs"]}
    raise AnalysisError("MissedTickBehavior")


def lateness(st, now, due):
    """True: later than the tolerance, False: not, None: not looked at"""
    lim = ("app", "iadd", due, TOL)
    for a, b in ((lim, now), (TOL, ("app", "idiff", now, due)), (due, ("app", "isub", now, TOL))):
        if st.f.holds("lt", a, b) is True:
            return True
        if st.f.holds("le", b, a) is True:
            return False
    if st.f.holds("le", now, due) is True:
        return False
    ns = ("app", "as_nanos", ("app", "idiff", now, due))
    if st.f.holds("lt", I(TOL[1]), ns) is True:
        return True
    if st.f.holds("le", ns, I(TOL[1])) is True:
        return False
    return None


def fixed_period_ok(st, t, base, per):
    return deadline_after(st, t, base, per) is not None or st.f.truth(("app", "iadd_fits", base, per)) is True and poly(t, st) == poly(("app", "iadd", base, per), st)


def skip_ok(st, t, due, now, per):
    """t is the first multiple of the period, counted from due, after now (due < now)"""
    late = poly(("app", "idiff", now, due), None)
    n = padd(poly(now), poly(per))
    rem = atom(("Rem", key(late), key(poly(per))))
    got = poly(t, None)
    if got == padd(n, rem, -1):
        return True
    # the period does not fit after now: practically forever
    if st.f.truth(("app", "iadd_fits", now, per)) is False:
        d = padd(padd(got, poly(now), -1), rem)
        return set(d) == {()} and d[()] >= YEARS10 or set(padd(got, poly(now), -1)) == {()} and padd(got, poly(now), -1)[()] >= YEARS10
    return False


@rule("interval.tick", "C11 C12", "poll_tick: pending exactly while its sleep is; otherwise reports the instant scheduled for and reschedules once: in time one period after that instant, more than 5 ms late by the behaviour set")
def tick(o):
    bh = behaviours(o.p)
    r = o.run(o.p.method(IV, "poll_tick"), extra=SLEEP_MODEL, key="sleep")
    self_, cx = r.params
    iv = ("*", self_)
    sl = (("P", self_), (("f", "delay"),))
    due, per, mb = ("f", ("f", iv, "delay"), "deadline"), ("f", iv, "period"), ("f", iv, "missed_tick_behavior")
    kinds = set()
    for st in r.states:
        sp = find(st, "sleep_poll")
        rs = find(st, "sleep_reset")
        if not o.path(r, st, len(sp) == 1 and st.ev[sp[0]].loc == sl and is_cx(st.ev[sp[0]].cx, cx), "polls its own sleep once, for the calling task"):
            continue
        o.path(r, st, not [e for e in st.ev if e.k == "write" and e.loc[0][0] == "P"], "a tick changes neither period nor behaviour")
        if st.exit.k == "panic":
            zero = st.f.const(("app", "as_nanos", per)) == 0 or st.f.holds("eq", per, ("dur", 0)) is True or per == ("dur", 0)
            big = any(a == I(1 << 64) and op in ("le", "lt") and b[0] == "bin" and b[1] == "Rem" for a, b, op in st.f.ord)
            o.path(r, st, zero or big, "panics only for a zero period or a tick more than 500 years late")
            continue
        if not o.path(r, st, st.exit.k == "return", "ends"):
            continue
        if variant(st.ret) == "Pending":
            kinds.add("pending")
            o.path(r, st, not rs and not was_ready(st), "pending exactly while the sleep is, and then nothing is rescheduled")
            continue
        if not o.path(r, st, variant(st.ret) == "Ready" and was_ready(st), "ticks only when the sleep has completed"):
            continue
        o.path(r, st, field(st.ret, "Ready.0") == due or field(st.ret, "0") == due, "reports the instant the tick was scheduled for")
        if not o.path(r, st, len(rs) == 1 and st.ev[rs[0]].loc == sl and rs[0] > sp[0], "the next tick is scheduled, once"):
            continue
        nxt = st.ev[rs[0]].at
        now = sole_now(st)
        if now is None:
            o.path(r, st, False, "the current time is read, once", st.ev[rs[0]])
            continue
        late = lateness(st, now, due)
        poss = [b for b, d in bh.items() if mb_possible(st, mb, d)]
        burst = fixed_period_ok(st, nxt, due, per)
        if late is False:
            kinds.add("in-time")
            o.path(r, st, burst, "a tick in time (up to 5 ms late) is followed by one exactly a period after its scheduled instant", st.ev[rs[0]])
            continue
        for b in poss:
            kinds.add(b)
            if b == "Burst":
                o.path(r, st, burst, "Burst: the next tick is one period after the missed one", st.ev[rs[0]])
            elif late is None:
                o.path(r, st, False, "being more than 5 ms late is noticed", st.ev[rs[0]])
            elif b == "Delay":
                o.path(r, st, fixed_period_ok(st, nxt, now, per), "Delay: the next tick is one period after now", st.ev[rs[0]])
            else:
                o.path(r, st, skip_ok(st, nxt, due, now, per), "Skip: the next tick is the first multiple of the period after now", st.ev[rs[0]])
        o.path(r, st, not any(e.k == "partial" and e.args[1] == per and st.f.truth(("app", e.op + "_fits", e.args[0], per)) is not True for e in st.ev), "no panicking addition of the period", st.ev[rs[0]])
    o.need(kinds == {"pending", "in-time", "Burst", "Delay", "Skip"}, "poll_tick has all its outcomes", r.body["span"], str(kinds))
    o.need(set(bh) == {"Burst", "Delay", "Skip"}, "the three behaviours exist")


def is_cx(t, cx):
    return t == cx or t == ("*", cx) or t[0] == "ref" and t[1] == (("P", cx), ())


def was_ready(st):
    """did the sleep's poll return ready on this path?"""
    return poll_result(st, "sleep_poll") == "Ready"


def poll_result(st, k):
    i = find(st, k)
    return st.ev[i[-1]].d.get("out") if i else None


def mb_possible(st, mb, d):
    t = ("disc", mb)
    c = st.f.const(t)
    if c is not None:
        return c == d
    return d not in st.f.ne.get(t, ())


@rule("interval.reset", "C11", "Interval::reset schedules the next tick one period after now and changes nothing else")
def reset(o):
    r = o.run(o.p.method(IV, "reset"), extra=SLEEP_MODEL, key="sleep")
    self_ = r.params[0]
    per = ("f", ("*", self_), "period")
    kinds = set()
    for st in r.states:
        rs = find(st, "sleep_reset")
        now = sole_now(st)
        okk = st.exit.k == "return" and len(rs) == 1 and now is not None and st.ev[rs[0]].loc == (("P", self_), (("f", "delay"),))
        k = deadline_after(st, st.ev[rs[0]].at, now, per) if okk else None
        kinds.add(k)
        o.path(r, st, okk and k is not None, "the next tick is one period after now, or ages away when that overflows")
        o.path(r, st, not [e for e in st.ev if e.k == "write" and e.loc[0][0] == "P"], "changes neither period nor behaviour")
    o.need(kinds == {"exact", "far"}, "reset has both outcomes", r.body["span"], str(kinds))


@rule("interval.new", "C11 C12 C26", "interval(p) / interval_at(s, p) first tick now / at s, keep the period given and default to Burst")
def new(o):
    bh = behaviours(o.p)
    for name in ("interval", "interval_at"):
        r = o.run(o.p.fn("tokio::interval", name), opaque=[LIST, HANDLE])
        outs = set()
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", "creating an interval does not panic"):
                continue
            at = r.params[0] if name == "interval_at" else sole_now(st)
            per = r.params[-1]
            s = field(st.ret, "delay")
            o.path(r, st, at is not None and field(s, "deadline") == at, "the first tick is due at the start")
            o.path(r, st, field(st.ret, "period") == per, "the period is the one asked for")
            mb = field(st.ret, "missed_tick_behavior")
            o.path(r, st, variant(mb) == "Burst", "the default behaviour is Burst")
            h = calls(st, HANDLE)
            if h and at is not None:
                s2 = st.copy()
                s2.ret = s
                outs.add(check_created(o, r, s2, field(st.ev[h[0]].ret, "inner"), at, name))
        o.need("live" in outs, "%s creates a live sleep" % name, r.body["span"], str(outs))
    r = o.run(o.p.method("tokio::interval::MissedTickBehavior", "default", "Default"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and variant(st.ret) == "Burst", "the default behaviour is Burst")


@rule("interval.fields", "C11 C12 C27", "Interval's getters return the stored period and behaviour; setting the behaviour changes only that")
def fields(o):
    for name, f in (("period", "period"), ("missed_tick_behavior", "missed_tick_behavior")):
        r = o.run(o.p.method(IV, name))
        for st in r.states:
            o.path(r, st, st.exit.k == "return" and st.ret == ("f", ("*", r.params[0]), f) and not find(st, "write"), "returns the stored value and changes nothing")
    r = o.run(o.p.method(IV, "set_missed_tick_behavior"))
    s, b = r.params
    for st in r.states:
        w = find(st, "write")
        o.path(r, st, st.exit.k == "return" and final(st, (("P", s), (("f", "missed_tick_behavior"),))) == b and len(w) == 1, "stores the behaviour given and nothing else")
    # who else writes the schedule
    n = 0
    for b in o.p.bodies.values():
        if not b["local"] or b["shim"]:
            continue
        for w in field_writes(o.p, b, IV):
            n += 1
            o.need(b["name"] == "set_missed_tick_behavior" or w == "delay", "%s: period and behaviour of an interval are set only by the user" % Program.norm(b["path"]), b["span"], w)


def field_writes(p, b, ty):
    """fields of `ty` assigned directly in body b (not counting construction)"""
    out = []
    for bl in b["blocks"]:
        for s in bl["s"]:
            if s[0] != "=":
                continue
            pl = s[1]
            if not pl["p"]:
                continue
            t = b["locals"][pl["l"]][0]
            names = []
            for e in pl["p"]:
                if e[0] == "d":
                    tt = p.types[t]
                    t = tt.get("t", -1) if "t" in tt else (tt.get("args") or [-1])[0]
                elif e[0] == "f":
                    names.append((p.types[t].get("path"), e[3]) if t is not None and t >= 0 else (None, e[3]))
                    t = e[2]
                else:
                    t = -1
                if t is None or t < 0:
                    break
            for path, f in names[-1:]:
                if path and Program.norm(path) == ty:
                    out.append(p.rename.get((path, f), f))
    return out


@rule("interval.await", "C11", "tick() resolves to exactly what poll_tick reports for the same interval, and is pending while that is")
def await_(o):
    f = o.p.method(IV, "tick")
    r0 = o.run(f)
    if not o.need(len(r0.states) == 1 and r0.states[0].exit.k == "return", "tick() does nothing before it is awaited", f["span"]):
        return
    PT = [r"^tokio::interval::Interval::poll_tick$"]
    r = async_run(o, f, r0, PT)
    kinds = set()
    iv = r0.params[0]

    def judge(r, states, tag):
        for st in states:
            if not o.path(r, st, st.exit.k == "return", "ends"):
                continue
            c = calls(st, PT[0])
            if not o.path(r, st, len(c) == 1 and same_iv(r, st, st.ev[c[0]].args[0], iv), "polls its interval once"):
                continue
            e = st.ev[c[0]]
            o.path(r, st, is_cx(e.args[1], r.params[1]), "for the calling task", e)
            d = st.f.const(("disc", e.ret))
            kinds.add((tag, variant(st.ret)))
            if variant(st.ret) == "Ready":
                o.path(r, st, d == 0 and field(st.ret, "Ready.0") in (("f", e.ret, "Ready.0"), field(e.ret, "Ready.0")), "reports what poll_tick reported", e)
            else:
                o.path(r, st, d == 1 and variant(st.ret) == "Pending", "is pending exactly while poll_tick is", e)
    judge(r, r.states, "first")
    pend = [st for st in r.states if st.exit.k == "return" and variant(st.ret) == "Pending"]
    for st in pend[:1]:
        r2 = resume(o, r, st, PT)
        judge(r2, r2.states, "again")
    o.need(kinds == {("first", "Ready"), ("first", "Pending"), ("again", "Ready"), ("again", "Pending")}, "tick() resumes", f["span"], str(kinds))


def same_iv(r, st, a, iv):
    for _ in range(3):
        if a == iv:
            return True
        if a[0] == "ref":
            if a[1] == (("P", iv), ()):
                return True
            a = r.e.read(st, a[1])
        elif a[0] == "*":
            a = a[1]
        else:
            return False
    return a == iv
