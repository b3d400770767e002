"""What the compiler does not check: every unsafe operation of the crate has an owner among the rules, references that
leave the type system come back, and what owns a thing is not owned by it."""
from framework import *

OWNERS = {      # functions whose own rules decide, on every path, what happens to the references behind raw pointers
    ("timer::arc_list::ArcList", "push"): "list.push", ("timer::arc_list::ArcList", "pop"): "list.pop", ("timer::arc_list::ArcList", "take"): "list.take",
    ("timer::arc_list::ArcList", "take_and_seal"): "list.take", ("timer::arc_list::ArcList", "drop"): "list.pop",
    ("timer::TimerHandle", "default"): "handle.default", ("timer::TimerHandle", "set_as_global_fallback"): "handle.default",
    ("timer::clock", "clock"): "clock.global",
}
REF = r"^std::sync::(Arc|Weak)::<.*>::(from_raw|increment_strong_count|decrement_strong_count)$|^std::mem::ManuallyDrop::<.*>::(drop|take)$"
PIN = r"^std::pin::Pin::<.*>::(new_unchecked|get_unchecked_mut|map_unchecked|map_unchecked_mut|into_inner_unchecked)$"
PINNED = ("tokio::timeout::Timeout", "tokio::interval::Interval")
TAKEN = ("into_raw", "forget")
BACK = ("from_raw", "unforget")


def unsafe_ops(p, b):
    """what one body does that the compiler does not check -> [(what, site)]"""
    out = []
    T, L = p.types, b["locals"]

    def place(x, site):
        t = L[x["l"]][0]
        for e in x["p"]:
            if e[0] == "d":
                if T[t]["k"] == "ptr":
                    out.append(("dereferences a raw pointer", site))
                t = T[t].get("t") if T[t]["k"] in ("ptr", "ref") else None
            else:
                t = e[2] if e[0] == "f" else None
            if t is None:
                return

    def walk(x, site):
        if isinstance(x, dict):
            if "l" in x and "p" in x and isinstance(x["p"], list):
                place(x, site)
            if x.get("uns"):
                out.append((x["path"], site))
            for v in x.values():
                walk(v, site)
        elif isinstance(x, list):
            if x and x[0] == "cast" and "Transmute" in str(x[1:3]):
                out.append(("transmutes", site))
            for v in x:
                walk(v, site)
    for k in b["blocks"]:
        for s in k["s"] + [k["t"]]:
            walk(s, s[-1] if isinstance(s[-1], str) else b["span"])
    return out


def owner_key(p, b):
    while b["closure"] and b.get("parent") and any(x["path"] == b["parent"] and x["local"] for x in p.bodies.values()):
        b = next(x for x in p.bodies.values() if x["path"] == b["parent"] and x["local"])
    return (p.norm(b["self"]) if b["self"] else short(b["mod"] or ""), b["name"]), b


def short(s):
    return s[len("wasmtimer::"):] if s.startswith("wasmtimer::") else s


@rule("memory.sites", "C34", "every operation the compiler does not check is in a function whose own rules decide what happens to the object behind the pointer on every path (or is pinning inside a timeout or an interval), and reached from those alone", configs=("default", "test"))
def sites(o):
    p = o.p
    local = {i: b for i, b in p.bodies.items() if b["local"]}
    callers = {}
    for i, b in local.items():
        for k in b["blocks"]:
            t = k["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("inst", -1) in local:
                callers.setdefault(t[1]["inst"], set()).add(i)

    def vouched(i, keys, seen=()):
        k, b = owner_key(p, local[i])
        if k in keys:
            return True
        if i in p.roots and b["reach"]:
            return False
        c = {j for j in callers_of(b) if j not in seen}
        return bool(c) and all(vouched(j, keys, seen + (i,)) for j in c)

    def callers_of(b):
        ids = [j for j, x in local.items() if x["path"] == b["path"]]
        return {j for i in ids for j in callers.get(i, ()) if local[j]["path"] != b["path"]}
    pins = {k for k in {owner_key(p, b)[0] for b in local.values()} if k[0] in PINNED}
    n = 0
    for i, b in sorted(local.items(), key=lambda x: x[1]["path"]):
        if short(b["mod"] or "").split("::")[0] == "js" or "js::_::" in b["path"]:
            continue        # what wasm-bindgen generates for the two host bindings
        ops = unsafe_ops(p, b)
        if not ops:
            continue
        o.fns.setdefault(short(b["path"]), 0)
        for what, site in ops:
            if what.startswith("std::fmt::Arguments") or b["coroutine"] and (what == "transmutes" or what.endswith("::new_unchecked")):
                continue    # how the compiler itself writes format strings and .await
            n += 1
            o.sites.add(site)
            if re.search(PIN, what):
                o.need(vouched(i, pins), "%s: pins without owning what it pins" % short(b["path"]), site, what)
            elif re.search(REF, what) or what.startswith("wasmtimer::") or what == "dereferences a raw pointer":
                o.need(vouched(i, OWNERS), "%s: an unchecked operation outside the functions that own the pointers" % short(b["path"]), site, what)
            else:
                o.need(False, "%s: an unchecked operation no rule accounts for" % short(b["path"]), site, what)
    o.need(n >= 8, "the unchecked operations are found", "", str(n))


@rule("memory.kept", "C34", "outside the functions that own the raw pointers no reference leaves the type system without coming back: nothing is forgotten or leaked", configs=("default", "test"))
def kept(o):
    p = o.p
    n = 0
    for b in [x for i, x in p.bodies.items() if x["local"] and (x["closure"] or i in p.roots)]:
        k, top = owner_key(p, b)
        if k in OWNERS or short(b["mod"] or "").split("::")[0] == "js":
            continue
        names = json_calls(p, b)
        n += 1
        for path, site in names:
            if re.search(r"::(leak|into_raw|into_raw_parts)$|mem::forget$|mem::ManuallyDrop::<.*>::new$", path):
                if top["reach"] or not wrapper(o, top):
                    o.need(balanced(o, top), "%s: what it takes out of the type system comes back" % short(b["path"]), site, path)
    o.need(n >= 60, "functions were looked at", "", str(n))


def json_calls(p, b):
    """the functions a body calls or passes on as values -> [(path, site)]"""
    out = []

    def walk(x, site):
        if isinstance(x, dict):
            if x.get("k") == "fn" and isinstance(x.get("t"), int):
                out.append((p.types[x["t"]].get("path", ""), site))
            for v in x.values():
                walk(v, site)
        elif isinstance(x, list):
            for v in x:
                walk(v, site)
    for k in b["blocks"]:
        if k["t"][0] == "call" and isinstance(k["t"][1], dict):
            out.append((k["t"][1].get("path", ""), k["t"][-1]))
        for s in k["s"] + [k["t"]]:
            walk(s, s[-1] if isinstance(s[-1], str) else b["span"])
    return [(re.sub(r"<.*?>(?=::[a-z_]+$)", "<_>", a), z) for a, z in out]


def wrapper(o, b):
    """a private conversion: the functions that call it are the ones that own the pointer"""
    p = o.p
    ids = {j for j, x in p.bodies.items() if x["path"] == b["path"]}
    cs = [x for x in p.bodies.values() if x["local"] and x["path"] != b["path"] and any(k["t"][0] == "call" and isinstance(k["t"][1], dict) and k["t"][1].get("inst", -1) in ids for k in x["blocks"])]
    return bool(cs) and all(owner_key(p, c)[0] in OWNERS or not c["reach"] and wrapper(o, c) for c in cs)


def balanced(o, b):
    """every path gives back what it took out; what the analysis did not see taken is not known to come back"""
    seen = False
    for st in o.run(b).states:
        seen = seen or any(e.k in TAKEN for e in st.ev)
        if sum((e.k in TAKEN) - (e.k in BACK) for e in st.ev):
            return False
    return seen


STRONG = ("std::sync::Arc", "std::rc::Rc")


@rule("memory.acyclic", "C34", "ownership has no cycles: nothing a timer, a sleep or a queue entry owns, through any chain of fields, containers, strong references and raw pointers that own, owns it back", configs=("default", "test"))
def acyclic(o):
    p = o.p
    T = p.types
    def parts(i):
        t = T[i]
        if t["k"] == "adt":
            path = t.get("path", "").split("<")[0]
            if path in ("std::sync::Weak", "std::rc::Weak", "std::marker::PhantomData"):
                return []
            if not t.get("local"):
                return list(t.get("args", []))
            return [f[1] for v in t.get("vs", []) for f in v["f"] if not link(f[1], i)]
        if t["k"] == "tuple":
            return t["ts"]
        if t["k"] in ("array", "slice", "ptr"):
            return [t["t"]]
        return []

    def link(j, i):
        """a raw pointer to a neighbour of the same type (as opposed to the list that owns the chain)"""
        while T[j]["k"] == "adt" and not T[j].get("local") and T[j].get("args"):
            j = T[j]["args"][0]
        return T[j]["k"] == "ptr" and T[j]["t"] == i

    def reach(i):
        seen, todo = set(), [j for j in parts(i)]
        while todo:
            j = todo.pop()
            if not isinstance(j, int) or j < 0 or j in seen:
                continue
            seen.add(j)
            todo += parts(j)
        return seen
    n = 0
    for i, t in enumerate(T):
        if t["k"] == "adt" and t.get("path", "").split("<")[0] in STRONG and t.get("args"):
            n += 1
            inner = t["args"][0]
            o.need(i not in reach(inner) and inner not in reach(inner), "what %s refers to does not own itself" % short(t["s"]), "", t["s"])
    o.need(n >= 2, "strong references are found", "", str(n))


for text in ("a refused node is not linked and no reference is kept or lost", "a retry keeps or loses no reference", "a node that is queued already is left alone, and this is success",
             "the list owns exactly one new reference", "the node is not touched after it was published", "success means the node was linked exactly once",
             "the head is yielded, its reference taken over once", "only a linked node is yielded", "no other reference is made or dropped",
             "next is read before the queued flag is cleared (after it a concurrent hand-over may relink the node)", "the rest of the list starts at the head's successor",
             "none only for an empty or sealed list, which stays as it is", "dropping a list releases every node in it", "dropping a list drains it by popping",
             "nothing is pushed onto a sealed list", "the node links to the head it replaces", "the head replaced is one that was read",
             "an installed handle's reference is kept, a refused one's released", "the registration keeps exactly one reference", "handing it out leaves the registration's reference alone",
             "the loser of a race releases its own handle", "the registration keeps its reference", "a clock that came too late is released",
             "the handle returned is the installed one", "returns the clock installed", "installs the handle it was given",
             "the clock is only read (acquire) or installed over null (release)", "the global handle is only read (acquire) or installed over null (release)",
             "what is handed over is what was removed (acquire), and the list is left empty", "what is handed over is what was removed (acquire), and the list is left sealed",
             "the pinned future is polled and nothing else", "the pinned future is not moved out"):
    more(text, "C34")
