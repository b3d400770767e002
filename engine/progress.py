"""Every trip around a loop must get closer to the loop's end (C35).

A state that ended by going back to a loop head shows one trip, with everything
that may differ between trips replaced by symbols.  A trip is progress when it
  - took an element out of a collection that it put nothing into, or a step of
    an iterator over a collection,
  - moved a counter strictly towards a bound that no trip moves, or strictly
    down without passing zero,
  - tries an atomic exchange again, because another thread changed the value,
    with the value it then saw,
  - looked for a free key, found this one taken, and goes on to another,
  - emptied a slot of the timing wheel, or polled the wheel dry and waits for
    the wheel's next deadline,
  - read an entry of the serialised input."""
import re
from terms import *

POP = re.compile(r"^(.*?(Heap|ArcList|Stack|Level)\b.*)::(pop|pop_entry_slot)$|Wheel.*::pop_entry$|^(std::vec::Vec|std::collections::\w+)::<.*>::(pop|pop_front|pop_back|pop_first|pop_last)$")
PUT = {"Heap": r"Heap::<.*>::push$", "ArcList": r"ArcList::<.*>::push$", "Stack": r"tack.*::push$", "Vec": r"Vec::<.*>::(push|insert|extend)"}


def trip(st):
    lid = st.exit.d["loop"]
    i = max(j for j, e in enumerate(st.ev) if e.k == "loop" and e.d.get("id") == lid)
    return i + 1, lid


def some_in(st, t):
    if t is None:
        return None
    if t[0] == "ag":
        return t[2] == "Some"
    c = st.f.const(("disc", t))
    return None if c is None else c == 1


def progresses(r, st):
    lo, lid = trip(st)
    ev = st.ev[lo:]
    syms = set(r.e.loopinfo[lid]["syms"].values())
    nxt = st.exit.d["next"] or {}
    peeked = set()
    # elements taken out
    for e in ev:
        if e.k == "call" and POP.search(e.path):
            got = some_in(st, e.d.get("ret"))
            if got is False and e.args and e.args[0] in peeked:
                return "not possible: there is a first element"
            kind = next((k for k in PUT if k in e.path), None)
            if got and not (kind and any(x.k == "call" and re.search(PUT[kind], x.path) for x in ev)):
                return "takes an element out"
            if got is False and ("pop_entry" in e.path):
                return "has emptied a slot"
        if e.k == "call" and e.args:
            if re.search(r"Heap.*::peek$", e.path):
                if some_in(st, e.d.get("ret")):
                    peeked.add(e.args[0])
            elif not re.search(r"Heap.*::(push|pop)$", e.path):
                pass
            else:
                peeked.discard(e.args[0])
        if e.k == "qpop" and some_in(st, e.d.get("ret")):
            return "takes an element out"
        if e.k == "each":
            return "one element of a collection"
        if e.k == "call" and re.search(r"MapAccess(<.*>)?::next_(key|entry)|SeqAccess(<.*>)?::next_element", e.path):
            return "reads an entry"
        if e.k == "atomic" and e.op == "cas" and not e.d.get("success"):
            old = e.d.get("old")
            for s in syms:
                if s == old and (nxt.get(s) == e.d.get("ret") or any(x.k == "atomic" and x.op == "load" and x.d.get("ret") == nxt.get(s) for x in ev)):
                    return "tries again with the value seen"
            if any(x.k == "atomic" and x.op in ("load", "cas") and x.d.get("ret") is not None and contains(old, x.d["ret"]) and x is not e for x in ev):
                return "tries again with the value read"
            if any(s[0] == "s" and s in syms and nxt.get(s) == e.d.get("ret") for s in atoms(old)):
                return "tries again with the value seen"
    for s in syms:
        v = nxt.get(s)
        if v is None or v == s:
            continue
        if counts(st, s, v, syms):
            return "a counter moves to its bound"
        if v == binop("Add", s, I(1), 64) and any(e.k == "klook" and contains(e.key, s) and st.f.const(e.res) == 1 for e in ev):
            return "another key"
    wp = [i for i, e in enumerate(ev) if e.k == "qwpoll"]
    if wp and some_in(st, ev[wp[-1]].d.get("ret")) is False and any(e.k in ("sleep_new", "sleep_reset") for e in ev[wp[-1]:]):
        return "waits for the wheel's next deadline"
    return None


def counts(st, s, v, syms):
    f = st.f
    if f.holds("lt", v, s) is True or smaller(f, s, v):
        return True
    up = f.holds("lt", s, v) is True or larger(s, v)
    if up:
        nodes = {x for a, b, _ in f.ord for x in (a, b)}
        for x in nodes:
            if x not in (s, v) and not any(contains(x, y) for y in syms) and (f.holds("lt", s, x) is True or f.holds("le", v, x) is True):
                return True
    return False


def smaller(f, s, v):
    """v is below s (s is not zero)"""
    pos = f.truth(compare("Eq", s, I(0))) is False or f.holds("lt", I(0), s) is True
    if v[0] == "bin" and v[1] in ("Div", "Shr") and is_i(v[4]) and v[4][1] >= (2 if v[1] == "Div" else 1):
        c, d = as_lin(v[3], v[2])
        if d == {s: 1} and (c == 0 or sgn(c, v[2]) < 0):
            return pos
    if v[0] == "lin" and dict(v[3]) == {s: 1} and sgn(v[2], v[1]) < 0:
        k = -sgn(v[2], v[1])
        return k == 1 and pos or f.holds("le", I(k), s) is True
    if v[0] == "bin" and v[1] == "BitAnd" and s in (v[3], v[4]):
        o = v[4] if v[3] == s else v[3]
        return pos and o == binop("Sub", s, I(1), v[2])
    return False


def larger(s, v):
    return v[0] == "lin" and set(dict(v[3])) == {s} and dict(v[3])[s] in (1, 2) and sgn(v[2], v[1]) > 0
