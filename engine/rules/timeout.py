"""tokio::timeout, tokio::error"""
from framework import *
from rules.sleep import deadline_after, sole_now, check_created
from rules.interval import SLEEP_MODEL, is_cx

TO = "tokio::timeout::Timeout"
FPOLL = r"^(futures|std::future|core::future)::Future::poll$|::Future::poll$|::poll_unpin$|::try_poll$"


@rule("timeout.poll", "C10", "Timeout::poll: asks the wrapped future first and returns its output; fails exactly when that is pending and the delay has completed; otherwise pending with the task registered with both")
def poll(o):
    r = o.run(o.p.method(TO, "poll", "Future"), extra=SLEEP_MODEL, key="sleep")
    self_, cx = r.params
    fl, dl = (("P", self_), (("f", "future"),)), (("P", self_), (("f", "delay"),))
    kinds = set()
    for st in r.states:
        if not o.path(r, st, st.exit.k == "return", "polling does not panic by itself"):
            continue
        fp = [i for i in calls(st, FPOLL) if st.ev[i].args and st.ev[i].args[0] == ("ref", fl)]
        sp = find(st, "sleep_poll")
        if not o.path(r, st, len(fp) == 1, "the wrapped future is polled once"):
            continue
        fe = st.ev[fp[0]]
        o.path(r, st, is_cx(fe.args[1], cx), "the wrapped future is polled for the calling task", fe)
        o.path(r, st, all(st.ev[i].loc == dl and is_cx(st.ev[i].cx, cx) for i in sp) and len(sp) <= 1, "the delay polled is its own, for the calling task")
        o.path(r, st, not [e for e in st.ev if e.k == "write" and e.loc[0][0] == "P" or e.k == "sleep_reset"], "polling leaves future and delay to themselves")
        d = st.f.const(("disc", fe.ret))
        out = st.ev[sp[0]].out if sp else None
        if variant(st.ret) == "Pending":
            kinds.add("pending")
            o.path(r, st, d == 1 and out == "Pending", "pending exactly while both are, with the task registered with both")
            continue
        v = field(st.ret, "Ready.0")
        if v == ("ag",) or not o.path(r, st, variant(st.ret) == "Ready" and v[0] == "ag", "returns a definite result"):
            continue
        if v[2] == "Ok":
            kinds.add("ok")
            o.path(r, st, d == 0 and field(v, "Ok.0") == ("f", fe.ret, "Ready.0"), "a result is the wrapped future's own, unchanged", fe)
        else:
            kinds.add("elapsed")
            o.path(r, st, d == 1 and out == "Ready" and fp[0] < len(st.ev), "fails only when the future was just pending and the deadline has been reached", fe)
    o.need(kinds == {"pending", "ok", "elapsed"}, "Timeout::poll has all its outcomes", r.body["span"], str(kinds))


@rule("timeout.new", "C10 C26", "timeout(d, f) / timeout_at(t, f) wrap f unchanged with a delay until now + d / t")
def new(o):
    for name in ("timeout", "timeout_at"):
        r = o.run(o.p.fn("tokio::timeout", name), opaque=[LIST, HANDLE])
        ti = 0 if re.search(r"Duration$|Instant$", o.p.tname(r.body["locals"][1][0])) else 1
        when, fut = r.params[ti], r.params[1 - ti]
        outs = set()
        for st in r.states:
            if not o.path(r, st, st.exit.k == "return", "creating a timeout does not panic"):
                continue
            o.path(r, st, field(st.ret, "future") == fut, "the future is the one given")
            s = field(st.ret, "delay")
            at = field(s, "deadline")
            if name == "timeout":
                now = sole_now(st)
                k = deadline_after(st, at, now, when) if now else None
                outs.add(k)
                o.path(r, st, k is not None, "the deadline is now + duration, or ages away when that overflows")
                o.path(r, st, not any(e.k == "partial" and e.args[1] == when for e in st.ev), "no panicking addition of the caller's duration")
            else:
                outs.add("exact")
                o.path(r, st, at == when, "the deadline is the one given")
            h = calls(st, HANDLE)
            if h:
                s2 = st.copy()
                s2.ret = s
                outs.add(check_created(o, r, s2, field(st.ev[h[0]].ret, "inner"), at, name))
        o.need(outs >= ({"exact", "far", "live"} if name == "timeout" else {"exact", "live"}), "%s has all its outcomes" % name, r.body["span"], str(outs))


@rule("timeout.inner", "C10 C27", "Timeout's accessors hand out exactly the wrapped future")
def inner(o):
    for name in ("get_ref", "get_mut"):
        r = o.run(o.p.method(TO, name))
        for st in r.states:
            o.path(r, st, st.exit.k == "return" and st.ret == ("ref", (("P", r.params[0]), (("f", "future"),))), "refers to the wrapped future")
    r = o.run(o.p.method(TO, "into_inner"))
    for st in r.states:
        o.path(r, st, st.exit.k == "return" and st.ret == ("f", r.params[0], "future"), "returns the wrapped future")


@rule("error.io", "C27", "Elapsed converts to an I/O error of kind TimedOut")
def io(o):
    c = [b for i in o.p.roots for b in [o.p.bodies[i]] if b["name"] == "from" and re.search(r"From<.*Elapsed>", b["path"])]
    if not o.need(len(c) == 1, "the conversion exists"):
        return
    r = o.run(c[0], opaque=[r"std::io::|core::io::|io::error"])
    for st in r.states:
        ok_ = [e for e in st.ev if e.k == "call" and re.search(r"io\b", e.path + e.decl) and any(a[0] == "ag" and a[2] == "TimedOut" for a in e.args) and contains(st.ret, e.ret)]
        other = [e for e in st.ev if e.k == "call" and any(a[0] == "ag" and "ErrorKind" in a[1] and a[2] != "TimedOut" for a in e.args)]
        o.path(r, st, st.exit.k == "return" and bool(ok_) and not other, "the kind is timed-out")


TAGS.update({"keys are equal exactly when they were given for the same item": "C22 C27"})


@rule("values.same", "C27", also="C22", text="keys, behaviours and errors compare equal exactly when they hold the same, and their copies are the same")
def same(o):
    for ty, leaf in (("tokio_util::delay_queue::Key", "index"), ("tokio_util::delay_queue::KeyInternal", "index"), ("tokio::interval::MissedTickBehavior", None), ("tokio::error::Elapsed", "")):
        key = leaf == "index"
        for name, tr in (("eq", "PartialEq"), ("ne", "PartialEq"), ("clone", "Clone")):
            b = o.p.method(ty, name, tr, must=False)
            if b is None:
                o.need(ty.endswith("KeyInternal") or name != "eq", "%s can be compared" % ty.split("::")[-1])
                continue
            r = o.run(b)
            x = ("*", r.params[0])
            for st in r.states:
                if not o.path(r, st, st.exit.k == "return", "does not panic"):
                    continue
                if name == "clone":
                    o.path(r, st, st.ret == x, "a copy is the same")
                    continue
                y = ("*", r.params[1])
                a, c = (field(x, leaf), field(y, leaf)) if key else (("disc", x), ("disc", y)) if leaf is None else (UNIT, UNIT)
                t = st.ret
                if name == "ne":
                    t = boolnot(t)
                okk = True
                for v in (True, False):
                    f = st.f.copy()
                    if is_i(t):
                        if bool(t[1]) is not v:
                            continue
                    elif not f.assume(t, v):
                        continue
                    okk = okk and decided(f, a, c) is v
                o.path(r, st, okk, "keys are equal exactly when they were given for the same item" if key else "equal exactly when what they hold is")


def decided(f, a, c):
    """are a and c equal, as far as f knows?"""
    if a == c:
        return True
    ka, kc = f.const(a), f.const(c)
    if ka is not None and kc is not None:
        return ka == kc
    if f.holds("eq", a, c) is not None:
        return f.holds("eq", a, c)
    for k, x in ((ka, c), (kc, a)):
        if k is not None and not f.copy().set_const(x, k):
            return False
    if not f.copy().assume(compare("Eq", a, c), True):
        return False
    if not f.copy().assume(compare("Lt", a, c), True) and not f.copy().assume(compare("Lt", c, a), True):
        return True
    return None
