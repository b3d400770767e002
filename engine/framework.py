"""Obligations, coverage accounting and helpers shared by the rules."""
import os, re, sys
sys.setrecursionlimit(20000)
from terms import *
from absint import Program, Engine, Facts, Ev, AnalysisError, State, FRESH
import dump, progress, inbounds

# private field names are renamed to these by their (unique) type
CANON = {
    "timer::ScheduledTimer": [("waker", r"AtomicWaker$"), ("state", r"atomic::Atomic<usize>$|AtomicUsize$"), ("inner", r"Weak<"),
                              ("at", r"Mutex<std::option::Option<wasmtimer::std::Instant>>$"), ("slot", r"Mutex<std::option::Option<.*Slot>>$")],
    "timer::Inner": [("list", r"ArcList<"), ("waker", r"AtomicWaker$")],
    "timer::HeapTimer": [("at", r"Instant$"), ("gen", r"^usize$"), ("node", r"Arc<")],
    "timer::Timer": [("inner", r"Arc<"), ("timer_heap", r"Heap<")],
    "timer::TimerHandle": [("inner", r"Weak<")],
    "timer::global::Driver": [("timer", r"Timer$"), ("next_callback", r"Option<.*Instant>$")],
    "timer::global::Waker": [("driver", r"Arc<")],
    "timer::arc_list::ArcList": [("list", r"atomic::Atomic<\*mut")],
    "timer::arc_list::Node": [("next", r"atomic::Atomic<\*mut"), ("enqueued", r"atomic::Atomic<bool>")],
    "timer::heap::Slot": [("idx", r"^usize$")],
    "timer::heap::Heap": [("items", r"Vec<\("), ("index", r"Vec<(?!\()"), ("next_index", r"^usize$")],
    "tokio::sleep::Sleep": [("state", r"Option<std::sync::Arc<"), ("deadline", r"Instant$")],
    "tokio::timeout::Timeout": [("delay", r"Sleep$"), ("future", r"^[A-Z][A-Za-z]*$")],
    "tokio::interval::Interval": [("delay", r"Sleep$"), ("period", r"Duration$"), ("missed_tick_behavior", r"MissedTickBehavior$")],
    "tokio_util::delay_queue::DelayQueue": [("slab", r"SlabStorage<"), ("wheel", r"Wheel<"), ("expired", r"Stack<"), ("delay", r"Option<std::pin::Pin<std::boxed::Box<"),
                                            ("wheel_now", r"^u64$"), ("start", r"Instant$"), ("waker", r"Option<std::task::Waker>$")],
    "tokio_util::delay_queue::SlabStorage": [("inner", r"^slab::Slab<"), ("key_map", r"HashMap<"), ("next_key_index", r"^usize$"), ("compact_called", r"^bool$")],
    "tokio_util::delay_queue::Key": [("index", r"^usize$")],
    "tokio_util::delay_queue::KeyInternal": [("index", r"^usize$")],
    "tokio_util::delay_queue::Stack": [("head", r"Option<")],
    "tokio_util::delay_queue::Data": [("inner", r"^[A-Z]$"), ("when", r"^u64$"), ("expired", r"^bool$")],
    "tokio_util::delay_queue::Expired": [("data", r"^[A-Z]$"), ("deadline", r"Instant$"), ("key", r"Key$")],
    "tokio_util::wheel::Wheel": [("elapsed", r"^u64$"), ("levels", r"Vec<")],
    "tokio_util::wheel::level::Level": [("level", r"^usize$"), ("occupied", r"^u64$"), ("slot", r"^\[")],
    "tokio_util::wheel::level::Expiration": [("deadline", r"^u64$")],
    "std::Instant": [("0", r"Duration$")],
}

LIST = r"^timer::arc_list::ArcList::<.*>::(push|take|take_and_seal|pop)$"
HEAP = r"^timer::heap::Heap::<.*>::(push|pop|peek|remove)$"
HANDLE = r"<timer::TimerHandle as std::default::Default>::default$"

RULES = []
VISITED = set()     # bodies that some rule's run went through
MORE = {}     # text of an obligation -> properties it bears on as well
OWNING = ("list.push", "list.take", "list.pop", "handle.default", "clock.global")
TAGS = {}     # text of an obligation -> the properties it bears on, where that is not all of its rule's


# Whether a path may panic is an obligation of every behavioural rule (C32): those about panics as such, ...
PANICKY = re.compile(r"panic|never fails|refused only|refuses only|only a reservation may be refused|overflowing values are refused|the difference never overflows"
                     r"|starts neither complete nor orphaned|inert only when|has ready, pending, orphaned and inert outcomes")
# ... and those of the rules that exclude the panics which the code's own consistency checks and unwraps leave possible:
# where one is not met, such a panic is not excluded.
PREMISES = re.compile(r"(heap|slab|stack|level|wheel)\.|list\.(push|pop)$|dq\.(insert|remove|reset|poll|clear)$|timer\.poll$|clock\.(ops|global)$|driver\.run$|handle\.default$")


class Rule:
    def __init__(self, id, props, also, text, configs, only, fn):
        self.id, self.props, self.text, self.configs, self.only, self.fn = id, props, text, configs, only, fn
        if not id.startswith(("locks.", "autos.", "api.", "memory.", "progress.")):
            also = also + ["C32", "C35"]
        if id in OWNING:
            also = also + ["C34"]
        self.premise = bool(PREMISES.match(id))
        self.all_props = props + also


def rule(id, props, text, configs=("default",), only=False, also=""):
    """`configs`: the feature sets a quick run analyses; a thorough run analyses all of them unless `only`.
    `props`: what an obligation bears on unless TAGS says otherwise; `also`: more that TAGS may name."""
    def deco(f):
        RULES.append(Rule(id, props.split(), also.split(), text, configs, only, f))
        return f
    return deco


def more(text, prop):
    MORE.setdefault(text, set()).add(prop)


class Run:
    def __init__(self, e, body, states, params):
        self.e, self.body, self.states, self.params = e, body, states, params
        self.path = Program.norm(body["path"])

    def rets(self):
        return [s for s in self.states if s.exit.k == "return"]

    def panics(self):
        return [s for s in self.states if s.exit.k == "panic"]


class Ctx:
    """One configuration's program with cached analyses."""

    def __init__(self, config, path):
        self.config = config
        self.p = Program(path, CANON)
        self.cache = {}
        e = Engine(self.p)
        self.p.consts = {}
        for n, c in self.p.raw_consts:
            self.p.consts[n] = e.constant(c, None)

    def run(self, body, opaque=(), instant_native=True, extra=None, args=None, key=None, mem=None, facts=None):
        k = (body["id"], tuple(opaque), instant_native, key)
        if (extra or args or mem or facts) and key is None:
            k = None
        if k is not None and k in self.cache:
            r = self.cache[k]
        else:
            e = Engine(self.p, opaque=opaque, instant_native=instant_native, extra_native=extra)
            st = e.run(body, args=args, mem=mem, facts=facts)
            r = Run(e, body, st, e.params)
            if k is not None:
                self.cache[k] = r
        return r


class Out:
    """What one rule on one configuration found."""

    def __init__(self, rule, ctx):
        self.rule, self.x = rule, ctx
        self.p = ctx.p
        self.obligations = 0
        self.panic_obligations = 0
        self.progress_obligations = 0
        self.failed = []
        self.fns = {}
        self.paths = 0
        self.sites = set()
        self.checked = []

    def run(self, body, *a, **kw):
        r = self.x.run(body, *a, **kw)
        if r.path not in self.fns:
            self.fns[r.path] = len(r.states)
            self.paths += len(r.states)
            for b in r.e.visited:
                bb = self.p.bodies[b]
                if bb["local"]:
                    self.fns.setdefault(Program.norm(bb["path"]), 0)
            for s in r.states:
                for ev in s.ev:
                    if "site" in ev.d:
                        self.sites.add(ev.d["site"])
        if not self.rule.id.startswith("locks."):
            if r not in self.checked:
                self.checked.append(r)
                self.unknown(r)
                self.ends(r)
                self.indices(r)
        return r

    def unknown(self, r):
        """A call into code that is neither followed nor modelled must not be able to change tracked state."""
        seen = {}
        for s in r.states:
            for ev in s.ev:
                if ev.k == "call" and ev.path not in seen:
                    seen[ev.path] = None
                    if not may_change(self.p, ev):
                        continue
                    seen[ev.path] = s, ev
        for path, v in sorted(seen.items()):
            self.need(v is None, "%s: calls %s, which the analysis can neither follow nor model" % (r.path, path), site_of(*v) if v else "", trace(v[0]) if v else "")

    def indices(self, r):
        """Every index taken on these paths is in bounds."""
        if self.rule.id.startswith("progress."):        # runs what no rule has the context for
            return
        for st in r.states:
            for e in st.ev:
                if e.k == "ovf":
                    self.panic_obligations += 1
                    self.obligations += 1
                    if not inbounds.fits(r, st, e):
                        self.failed.append(("%s: no arithmetic overflows" % r.path, e.d.get("site", ""), trace(st), {"C32"} | set(self.rule.props)))
                if e.k == "bounds":
                    self.panic_obligations += 1
                    self.obligations += 1
                    if not inbounds.inbounds(r, st, e):
                        self.failed.append(("%s: every index is in bounds" % r.path, e.d.get("site", ""), trace(st), {"C32"} | set(self.rule.props)))

    def ends(self, r):
        """Every trip around a loop that this run took gets closer to the loop's end."""
        VISITED.update(self.p.bodies[i]["path"] for i in r.e.visited)
        for st in r.states:
            if st.exit.k == "loopback":
                self.progress_obligations += 1
                fn = Program.norm(r.e.loopinfo[st.exit.d["loop"]]["fn"])
                if not progress.progresses(r, st):
                    self.failed.append(("%s: each trip around the loop in %s gets closer to its end" % (r.path, fn), site_of(st), trace(st), {"C35"}))

    def need(self, cond, what, where="", detail="", panics=False):
        """One obligation.  `what` (with the rule id) is the stable key of a violation."""
        self.obligations += 1
        panics = panics or self.rule.premise or bool(PANICKY.search(what))
        self.panic_obligations += panics
        text = what.split(": ", 1)[-1]
        self.progress_obligations += "C35" in MORE.get(text, ()) or "C35" in TAGS.get(text, "").split()
        if not cond:
            t = TAGS.get(text)
            if t is None and text.endswith("has all its outcomes") and len(self.rule.props) > 3:
                t = self.rule.props[0]
            props = set(t.split()) & set(self.rule.all_props) if t else set(self.rule.props)
            props = props or set(self.rule.props)
            props = props | MORE.get(text, set()) & set(self.rule.all_props)
            if panics and "C32" in self.rule.all_props:
                props = props | {"C32"}
            self.failed.append((what, where, detail, props))
        return bool(cond)

    def path(self, r, st, cond, what, ev=None):
        return self.need(cond, "%s: %s" % (r.path, what), site_of(st, ev), trace(st) if not cond else "", panics=st.exit.k == "panic")


def site_of(st, ev=None):
    if ev is not None and "site" in ev.d:
        return ev.d["site"]
    for e in reversed(st.ev):
        if e.d.get("site", "").startswith("src/"):
            return e.d["site"]
    return st.exit.d.get("site", "")


def trace(st, limit=60):
    out = []
    for e in st.ev:
        if e.k == "enter":
            continue
        s = repr(e)
        out.append(s if len(s) < 400 else s[:400] + "...")
    if len(out) > limit:
        out = out[: limit // 2] + ["..."] + out[-limit // 2:]
    out.append("exit: %r ret=%s" % (st.exit, show(st.ret)[:300] if st.ret else None))
    return "\n      ".join(out)


# what a call that is not followed may be given mutable access to
HARMLESS = re.compile(r"^(std|core)::(fmt::Formatter|task::(wake::)?Context)\b|Hasher|^[A-Z][A-Za-z]{0,2}$|^<[A-Z][A-Za-z]{0,2} as (serde::|wasmtimer::)|^dyn std::fmt::|^str$")
SHARED = re.compile(r"\b(Atomic|AtomicWaker|AtomicPtr|AtomicUsize|AtomicBool|AtomicU64|Mutex|RwLock|Cell|RefCell|OnceLock|OnceCell|LazyLock|UnsafeCell)\b")


def may_change(p, ev):
    """Could this call change state the rules track?  Functions of the crate are listed boundaries with rules of their own."""
    if ev.own:
        return False
    for t in ev.d.get("tys", ()):
        t = p.types[t] if t is not None and t >= 0 else {}
        if t.get("k") not in ("ref", "ptr"):
            continue
        s = t["s"]
        inner = re.sub(r"^(&('[a-z_]+ )?(mut )?|\*(mut|const) )", "", s)
        if t.get("mut"):
            if not HARMLESS.search(inner):
                return True
        elif SHARED.search(inner.split("<")[0]) or (inner.startswith("std::sync::Arc<") and SHARED.search(inner)):
            return True
    return False


# ------------------------------------------------------------------ term helpers
def variant(t):
    return t[2] if t[0] == "ag" else None


def under(st, t, v):
    """Facts of st plus t == v, or None when that is impossible."""
    f = st.f.copy()
    ok_ = f.assume(t, bool(v)) if t[0] in ("eq", "lt", "le", "not", "app", "bin", "s", "f", "i") else f.set_const(t, v)
    return f if ok_ else None


def opt_split(st, t):
    """[(is_some, payload, facts)] for an Option term."""
    if t[0] == "ag":
        return [(t[2] == "Some", field(t, "Some.0") if t[2] == "Some" else None, st.f)]
    out = []
    for v in (0, 1):
        f = st.f.copy()
        if f.set_const(("disc", t), v):
            out.append((bool(v), field(t, "Some.0") if v else None, f))
    return out


def enum_is(st, t, name, idx):
    """Is the enum value t certainly variant `name` (discriminant idx)?"""
    if t[0] == "ag":
        return t[2] == name
    return st.f.const(("disc", t)) == idx


def last_loop(st, upto=None):
    """Index just after the last loop head."""
    n = len(st.ev) if upto is None else upto
    for i in range(n - 1, -1, -1):
        if st.ev[i].k == "loop":
            return i + 1
    return 0


def find(st, k, lo=0, hi=None, **m):
    out = []
    for i in range(lo, len(st.ev) if hi is None else hi):
        e = st.ev[i]
        if e.k != k:
            continue
        if all(e.d.get(a) == b for a, b in m.items()):
            out.append(i)
    return out


def calls(st, rx, lo=0, hi=None):
    c = re.compile(rx)
    return [i for i in range(lo, len(st.ev) if hi is None else hi) if st.ev[i].k == "call" and c.search(st.ev[i].path)]


def fld(loc, name):
    """owner location if loc is field `name` of something"""
    root, path = loc
    if path and path[-1] == ("f", name):
        return (root, path[:-1])
    return None


def mtx(loc, name):
    """owner location if loc is the data of mutex field `name`"""
    o = fld(loc, "$data")
    return fld(o, name) if o else None


def final(st, loc, hint=None):
    """value last written to loc (exactly), or None"""
    for e in reversed(st.ev):
        if e.k == "write" and e.loc == loc:
            return e.val
    return None


def acq(o):
    return o in ("Acquire", "AcqRel", "SeqCst")


def rel(o):
    return o in ("Release", "AcqRel", "SeqCst")


def waker_root(t):
    """strip clones"""
    while t[0] == "app" and t[1] == "wclone":
        t = t[2]
    return t


def is_cx_waker(t, cx):
    """t is the waker of context argument cx"""
    t = waker_root(t)
    while t[0] == "*":
        t = t[1]
    return t == ("app", "waker", cx)


def atomic_reading(r, st, t, loc, depth=0):
    """t is certainly a value read from the atomic at loc"""
    if depth > 6:
        return False
    for e in st.ev:
        if e.k == "atomic" and e.loc == loc and e.d.get("ret") == t and (e.op != "cas" or not e.success):
            return True
    vals = r.e.loopvals.get(t)
    if vals:
        return all(v == t or any(atomic_reading(r, s, v, loc, depth + 1) for s in r.states) for v in vals)
    return False


def origins(r, t):
    """values a loop-carried term can stand for"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += list(r.e.loopvals.get(x, ()))
    return out
