"""Lock discipline over the whole crate (C25, C09).

Each local function is analysed on its own (calls to other local functions are
boundaries; only functions that take or return locks or guards are followed),
which gives per function a summary: which locks it can take, whether it can
run code of the user (wakers, callbacks, drops of user values).  The summaries
are closed over the call graph and every path is then judged with the locks
held at each of its events."""
import re
from framework import *

GUARDY = re.compile(r"\b(Mutex|RwLock|ReentrantMutex|MutexGuard|RwLock\w*Guard)\b")


def strip(p):
    """path without generic arguments"""
    out, d, prev = [], 0, ""
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            d, j = 1, i + 3
            while d and j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    s = "".join(out)
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", s)
    if m:
        return "<%s as %s>::%s" % (re.sub(r"<.*", "", m.group(1).lstrip("&").replace("mut ", "")), re.sub(r"<.*", "", m.group(2)).split("::")[-1], m.group(3))
    return s


class Names:
    """stands in for a regular expression in Engine.opaque"""
    def __init__(self, names):
        self.names = names

    def search(self, path):
        return strip(path) in self.names

    def __hash__(self):
        return hash(frozenset(self.names))

    def __eq__(self, other):
        return isinstance(other, Names) and self.names == other.names


def cls(ev):
    """class of a lock: (type it protects, field it is)"""
    f = fld(ev.loc, "$data")
    name = None
    if f and f[1] and f[1][-1][0] == "f":
        name = f[1][-1][1]
    return (ev.d.get("ty", "?"), name)


def same(a, b):
    return a[0] == b[0] and (a[1] == b[1] or a[1] is None or b[1] is None)


def is_driver(c):
    return c[0].endswith("global::Driver")


def user_type(p, ti, seen, generic=True):
    """can dropping a value of this type run code of the user?  A reference to
    a node of the timer does not count: the node whose lock is held is borrowed
    and no section releases another one.  Parameters of private types stand
    for types of the crate (generic=False)."""
    if ti is None or ti < 0 or ti in seen:
        return False
    seen.add(ti)
    t = p.types[ti]
    k = t.get("k")
    if k == "param":
        return generic
    if k in ("dyn", "opaque", "alias", "dynamic"):
        return True
    if NODE.search(t["s"]):
        return False
    if not t.get("drop", True) and k != "adt":
        return False
    if k == "adt":
        if t["path"] in ("std::task::Waker", "futures::task::AtomicWaker") or t["path"].endswith("AtomicWaker"):
            return True
        if t["path"] in ("std::sync::Weak", "std::mem::ManuallyDrop"):
            return False
        for v in t["vs"]:
            for f in v["f"]:
                if user_type(p, f[1], seen, generic):
                    return True
        return any(user_type(p, a, seen, generic) for a in t.get("args", []))
    for key in ("ts", "ups"):
        if any(user_type(p, a, seen, generic) for a in t.get(key, [])):
            return True
    if k in ("array", "slice"):
        return user_type(p, t.get("t"), seen, generic)
    return False


NODE = re.compile(r"^std::sync::Arc<wasmtimer::timer::arc_list::Node<")


def drop_impls(p, ti, seen, impls):
    """local Drop impls that dropping a value of this type can run"""
    out = set()
    if ti is None or ti < 0 or ti in seen:
        return out
    seen.add(ti)
    t = p.types[ti]
    k = t.get("k")
    if k == "adt":
        d = impls.get(Program.norm(t["path"]))
        if d:
            out.add(d)
        if t["path"] in ("std::sync::Weak", "std::mem::ManuallyDrop"):
            return out
        for v in t["vs"]:
            for f in v["f"]:
                out |= drop_impls(p, f[1], seen, impls)
        for a in t.get("args", []):
            out |= drop_impls(p, a, seen, impls)
    for key in ("ts", "ups"):
        for a in t.get(key, []):
            out |= drop_impls(p, a, seen, impls)
    if k in ("array", "slice"):
        out |= drop_impls(p, t.get("t"), seen, impls)
    return out


CALLBACK = re.compile(r"^<pointer>$|ops::Fn(Once|Mut)?>?::call|Future>?::poll$|Stream>?::poll_next$|ArcWake>?::wake")


def local_fns(p):
    out = []
    for i, b in sorted(p.bodies.items()):
        if b["local"] and not b["shim"] and b["id"] in p.roots and "wasm_bindgen::" not in b["path"] and not b["mod"].startswith("wasmtimer::js"):
            out.append(b)
    return out


def sig(p, b):
    return [p.types[l[0]]["s"] for l in b["locals"][: b["argc"] + 1]]


class Model:
    def __init__(self, o):
        self.o, self.p = o, o.p
        self.fns = local_fns(o.p)
        names = set()
        for b in self.fns:
            if not b["closure"] and not any(GUARDY.search(s) and "Arc<" not in s for s in sig(o.p, b)):
                names.add(strip(Program.norm(b["path"])))
        self.names = names
        self.ty = {t["s"]: i for i, t in enumerate(o.p.types)}
        self.dropimpl = {}
        for b in self.fns:
            if b["trait"] and b["trait"].endswith("ops::Drop"):
                self.dropimpl[re.sub(r"<.*", "", Program.norm(b["self"]))] = strip(Program.norm(b["path"]))
        self.runs = {}
        for b in self.fns:
            self.runs[b["id"]] = o.run(b, opaque=[Names(names)], instant_native=False, key="locks")
        self.close()

    def effects(self, r, st, i):
        """(locks taken by this event directly, names of local functions run, runs user code, description)"""
        ev = st.ev[i]
        if ev.k == "lock":
            return ({cls(ev)} if not ev.d.get("tried") else set(), set(), False)
        if ev.k == "wake_task" and ev.d.get("nothing"):
            return (set(), set(), False)
        if ev.k in ("wake", "wake_task"):
            return (set(), set(), True)
        if ev.k == "call":
            n = strip(ev.path)
            if n in self.names:
                return (set(), {n}, False)
            if CALLBACK.search(ev.path) or CALLBACK.search(ev.decl):
                return (set(), set(), True)
            return (set(), set(), False)
        if ev.k == "drop":
            ti = self.ty.get(ev.ty)
            if ti is None:
                return (set(), set(), False)
            return (set(), drop_impls(self.p, ti, set(), self.dropimpl), user_type(self.p, ti, set(), r.body["reach"]))
        return (set(), set(), False)

    def unlocked_known(self, st, i, c):
        """was the lock of this class seen free before event i on this path?"""
        return any(self.found_free(st, e) and (c is None and is_driver(cls(e)) or c is not None and same(cls(e), c)) for e in st.ev[:i])

    @staticmethod
    def found_free(st, e):
        return e.k == "is_locked" and st.f.const(e.ret) == 0 or e.k == "lock" and bool(e.d.get("tried"))

    @staticmethod
    def newborn(st, i):
        """is the lock taken by event i part of something made on this path that went nowhere yet?"""
        root = st.ev[i].loc[0]
        return root[0] == "T" and not any(e.k in ("call", "wake", "callback") and contains(tuple(e.d.get("vals") or ()) + tuple(e.d.get("args") or ()), root) for e in st.ev[:i])

    def close(self):
        S = {}
        for b in self.fns:
            n = strip(Program.norm(b["path"]))
            s = S.setdefault(n, [set(), False, set()])
            for st in self.runs[b["id"]].states:
                for i in range(len(st.ev)):
                    locks, fns, user = self.effects(self.runs[b["id"]], st, i)
                    if st.ev[i].k == "lock" and self.newborn(st, i):
                        continue            # nobody else can hold a lock that did not exist before
                    s[0] |= {c for c in locks if not (is_driver(c) and self.unlocked_known(st, i, c))}
                    guarded = self.unlocked_known(st, i, None)
                    s[2] |= {(f, guarded) for f in fns}
                    s[1] |= user
        change = True
        while change:
            change = False
            for n, s in S.items():
                for f, guarded in s[2]:
                    if f in S:
                        add = {c for c in S[f][0] if not (guarded and is_driver(c))}
                        if not add <= s[0] or S[f][1] and not s[1]:
                            s[0] |= add
                            s[1] |= S[f][1]
                            change = True
        self.S = S
        # what code of the user can do: call anything public, drop values, use the wakers it was given
        self.user = set()
        for b in self.fns:
            if not b["closure"] and (b["reach"] or b["trait"]):
                self.user |= S[strip(Program.norm(b["path"]))][0]


def model(o):
    k = ("locks.model",)
    if k not in o.x.cache:
        o.x.cache[k] = Model(o)
    else:
        for b in o.x.cache[k].fns:
            o.run(b, opaque=[Names(o.x.cache[k].names)], instant_native=False, key="locks")
    return o.x.cache[k]


def nm(c):
    return "%s%s" % (c[1] + ": " if c[1] else "", c[0])


def walk(m, r, st):
    """(index, event, [lock events held just before it])"""
    held = []
    for i, ev in enumerate(st.ev):
        yield i, ev, list(held)
        if ev.k == "lock":
            held.append(ev)
        elif ev.k == "unlock":
            held = [h for h in held if h.n != ev.n]
    yield len(st.ev), None, held


def judge(o, driver):
    """every path of every function; driver: only what concerns the driver's lock"""
    m = model(o)
    edges = {}
    nlock = 0
    for b in m.fns:
        r = m.runs[b["id"]]
        for st in r.states:
            for i, ev, held in walk(m, r, st):
                held = [h for h in held if not driver or is_driver(cls(h))]
                if ev is None:
                    if st.exit.k == "return":
                        for h in held:
                            kept = contains(st.ret, ("guard", h.loc, h.n)) if st.ret else False
                            o.path(r, st, kept, "%s is released on return" % nm(cls(h)), h)
                    continue
                locks, fns, user = m.effects(r, st, i)
                nlock += ev.k == "lock" and (not driver or is_driver(cls(ev)))
                if not held or not (locks or fns or user):
                    continue
                take = set(locks)
                usr = user
                for f in fns:
                    if f in m.S:
                        take |= m.S[f][0]
                        usr |= m.S[f][1]
                what = {"call": "calling %s" % (ev.d.get("path") or "?"), "drop": "dropping %s" % ev.d.get("ty", "?")}.get(ev.k, ev.k)
                for h in held:
                    hc = cls(h)
                    o.path(r, st, not any(same(hc, c) for c in take), "does not take %s again while it is held (%s)" % (nm(hc), what), ev)
                    if usr:
                        if is_driver(hc):
                            o.path(r, st, not any(same(hc, c) for c in m.user), "user code run under the driver's lock cannot take it again (%s)" % what, ev)
                        else:
                            o.path(r, st, False, "%s is not held while a task is woken or other code is called back (%s)" % (nm(hc), what), ev)
                    for c in take | (m.user if usr else set()):
                        edges.setdefault(hc, {}).setdefault(c, (r.path, ev.d.get("site", "")))
    return edges, nlock


@rule("locks.driver", "C09", "the driver's lock is released by every run and never taken by code that can run while it is held", configs=("default", "test"))
def driver_lock(o):
    edges, n = judge(o, True)
    o.need(n > 0, "the driver runs under its lock", "", "")


@rule("locks.order", "C25", "no lock is taken while it (or another of its class) is held, directly, through calls, drops or wake-ups; every lock is released on return; nested locks have one order; only the driver's lock is held while code of the user runs, and then everything that code can reach leaves that lock alone", configs=("default", "test"))
def order(o):
    edges, n = judge(o, False)
    seen = set()
    for a in list(edges):
        stack = [(a, [a])]
        vis = set()
        while stack:
            x, path = stack.pop()
            for y in edges.get(x, {}):
                if same(y, a):
                    w = edges[x][y]
                    key = frozenset(path)
                    if len(path) > 1 and key not in seen:
                        seen.add(key)
                        o.need(False, "locks are nested in one order: %s" % " then ".join(sorted(nm(c) for c in path)), w[1], "taken in %s" % w[0])
                elif y not in vis:
                    vis.add(y)
                    stack.append((y, path + [y]))
    o.need(n > 0, "the crate takes locks", "", "")


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t)
    return False
