"""Path-partitioned abstract interpretation of MIR.

Domain: a value-numbering store (place -> term), a set of branch facts
(constants, known bits, an order relation closed under transitivity) and the
sequence of effects.  Branches partition the state; a branch whose condition
contradicts a recorded fact is dropped.  Loops are taken to a fixed point: every
place that some trip round the loop may write is set to an unknown value at the
loop head before the body is analysed, so one analysed trip stands for all.
Calls into the crate (and into Option/Result/Poll/closure plumbing of the
standard library) are followed, everything else is an effect with an unknown
result.  There is no solver and nothing is executed.
"""
import itertools, json, os, re
from terms import *
import terms as T

FRESH = itertools.count()     # value numbers are unique over all analyses of a run
MAX_PATHS = 6000
MAX_STEPS = 400000


class AnalysisError(Exception):
    pass


class Ev:
    __slots__ = ("k", "d")

    def __init__(self, k, **d):
        self.k = k
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def has(self, n):
        return n in self.d

    def __repr__(self):
        out = []
        for k, v in self.d.items():
            if k in ("site", "fn", "tys", "callee", "ords"):
                continue
            if k == "loc":
                out.append("loc=" + showloc(v))
            elif isinstance(v, tuple) and v and isinstance(v[0], str):
                out.append("%s=%s" % (k, show(v)))
            elif isinstance(v, (list, tuple)):
                out.append("%s=[%s]" % (k, ", ".join(show(x) for x in v)))
            else:
                out.append("%s=%s" % (k, v))
        return "<%s %s @%s>" % (self.k, " ".join(out), self.d.get("site", ""))


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, path, canon=None):
        text = open(path).read()
        d = json.loads(text)
        if canon:
            moved = self.canonical_types(d)
            for new, want in moved:
                text = re.sub(r"(?<![A-Za-z0-9_])" + re.escape(new) + r"(?![A-Za-z0-9_])", want, text)
            if moved:
                d = json.loads(text)
                for t in d["types"]:
                    for new, want in moved:
                        if t.get("k") == "adt" and t.get("local") and t["adt"] == "struct" and self.norm(t["path"]) == want:
                            t["vs"][0]["n"] = want.split("::")[-1]
                text = json.dumps(d)
            old = self.canonical_names(d)
            for (ty, mod), name, want in old:
                if ty:
                    text = re.sub(re.escape(ty) + r"(::<[^\"]*?>)?::" + name + r"(?![A-Za-z0-9_])", lambda m: ty + (m.group(1) or "") + "::" + want, text)
                else:
                    text = re.sub(re.escape(mod + "::" + name) + r"(?![A-Za-z0-9_])", mod + "::" + want, text)
            if old:
                d = json.loads(text)
                for b in d["bodies"]:
                    for (ty, mod), name, want in old:
                        if b["local"] and b["name"] == name and not b["trait"] and (b["self"] == ty if ty else b["self"] is None and b["mod"] == mod):
                            b["name"] = want
        self.types = d["types"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.roots = d["roots"]
        self.autos = d.get("autos", [])
        self.statics = d["statics"]
        self.raw_consts = d["consts"]
        self.ptr = d["ptr"]
        self.rename = {}
        if canon:
            self.canonical_fields(canon)
        self.by_path = {}
        for i in self.roots:
            b = self.bodies[i]
            self.by_path.setdefault(self.norm(b["path"]), b)
        for b in d["bodies"]:
            if b["local"]:
                self.by_path.setdefault(self.norm(b["path"]), b)

    @staticmethod
    def norm(p):
        return p[len("wasmtimer::"):] if p.startswith("wasmtimer::") else p.replace("wasmtimer::", "")

    @staticmethod
    def signatures(d):
        """signature of every private function and inherent method: {(type, module): {name: signature}}"""
        out = {}
        for i in d["roots"]:
            b = next(x for x in d["bodies"] if x["id"] == i) if not isinstance(d["bodies"], dict) else d["bodies"][i]
            if b["local"] and not b["closure"] and not b["trait"] and not b["shim"] and not b["reach"] and b["name"] and b["parent"] is None:
                sig = [d["types"][l[0]]["s"] if l[0] >= 0 else "?" for l in b["locals"][: b["argc"] + 1]]
                k = (b["self"], None) if b["self"] else (None, b["mod"])
                out.setdefault(k, {})[b["name"]] = " ".join(sig)
        return out

    @classmethod
    def shapes(cls, d):
        """{module: {type: shape}} of the types of the crate: kind, variants and field names."""
        out = {}
        for t in d["types"]:
            if t.get("k") == "adt" and t.get("local"):
                mod, _, name = cls.norm(t["path"]).rpartition("::")
                sh = "%s %d %s" % (t["adt"], len(t["args"]), " ".join("%s(%s)" % ("" if v["n"] == name else v["n"], ",".join(f[0] for f in v["f"])) for v in t["vs"]))
                out.setdefault(mod, {})[name] = sh
        traits = {}
        for b in d["bodies"]:
            if b["local"] and b["trait"] and b["trait"].startswith("wasmtimer::") and not b["closure"]:
                traits.setdefault(cls.norm(b["trait"]), set()).add(b["name"])
        for t, names in traits.items():
            mod, _, name = t.rpartition("::")
            out.setdefault(mod, {})[name] = "trait " + " ".join(sorted(names))
        return out

    @classmethod
    def canonical_types(cls, d):
        """Nor are the names of types: a type the rules know that is gone, and
        the only new one of its shape in its module, are the same.  (A public
        type whose name changes does not get past the API clients.)"""
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "types.json")
        if not os.path.exists(f):
            return []
        have = cls.shapes(d)
        out = []
        for mod, names in json.load(open(f)).items():
            h = have.get(mod, {})
            gone = {n: s for n, s in names.items() if n not in h}
            new = {n: s for n, s in h.items() if n not in names}
            for n, s in gone.items():
                c = [m for m, t in new.items() if t == s]
                if len(c) == 1 and list(gone.values()).count(s) == 1:
                    out.append((mod + "::" + c[0], mod + "::" + n))
        return out

    @classmethod
    def canonical_names(cls, d):
        """Names of private functions are not part of any property either: a
        function the rules know that is gone, and the only new one with its
        signature, are the same."""
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
        if not os.path.exists(f):
            return []
        known = {}
        for k, v in json.load(open(f)).items():
            ty, mod = k.split("|")
            known[(ty or None, mod or None)] = v
        have = cls.signatures(d)
        out = []
        for k, names in known.items():
            h = have.get(k, {})
            gone = {n: s for n, s in names.items() if n not in h}
            new = {n: s for n, s in h.items() if n not in names}
            for n, s in gone.items():
                c = [m for m, t in new.items() if t == s]
                if len(c) == 1 and [x for x in gone.values()].count(s) == 1:
                    out.append((k, c[0], n))
        return out

    def canonical_fields(self, canon):
        """Private field names are not part of any property: rename fields to
        canonical names by their (unique) type."""
        for t in self.types:
            if t.get("k") != "adt" or not t.get("local") or t["adt"] != "struct":
                continue
            rules = canon.get(self.norm(t["path"]))
            if not rules:
                continue
            have = {f[0] for f in t["vs"][0]["f"]}
            for name, rx in rules:
                if name in have:
                    continue
                cands = [f for f in t["vs"][0]["f"] if f[1] >= 0 and re.search(rx, self.types[f[1]]["s"]) and f[0] not in [n for n, _ in rules]]
                if len(cands) == 1:
                    self.rename[(t["path"], cands[0][0])] = name

    def tname(self, ti):
        return self.types[ti]["s"] if ti is not None and ti >= 0 else "?"

    def find(self, suffix, must=True):
        """Body of the local function whose path ends with suffix (segments)."""
        c = [b for p, b in self.by_path.items() if p == suffix or p.endswith("::" + suffix)]
        if not c:
            # <Type as Trait>::method
            c = [b for p, b in self.by_path.items() if suffix in p and not b["closure"]]
            c = [b for b in c if self.norm(b["path"]).endswith(suffix)]
        if len(c) > 1:
            c = [b for b in c if b["id"] in self.roots] or c
        if len(c) != 1:
            if not must:
                return c[0] if c else None
            raise AnalysisError("anchor %s: %d candidates" % (suffix, len(c)))
        return c[0]

    def method(self, self_ty, name, trait=None, must=True):
        c = []
        for i in self.roots:
            b = self.bodies[i]
            if b["name"] != name or b["self"] is None:
                continue
            if self.norm(b["self"]) != self_ty:
                continue
            if (trait is None) != (b["trait"] is None):
                continue
            if trait is not None and not b["trait"].endswith(trait):
                continue
            c.append(b)
        if len(c) != 1:
            if not must:
                return None
            raise AnalysisError("anchor <%s%s>::%s: %d candidates" % (self_ty, " as " + trait if trait else "", name, len(c)))
        return c[0]

    def fn(self, mod, name, must=True):
        c = [self.bodies[i] for i in self.roots if self.bodies[i]["name"] == name and self.bodies[i]["self"] is None and not self.bodies[i]["closure"] and self.norm(self.bodies[i]["mod"]) == mod]
        if len(c) != 1:
            if not must:
                return None
            raise AnalysisError("anchor fn %s::%s: %d candidates" % (mod, name, len(c)))
        return c[0]


def loops_of(body):
    """header -> set of blocks (natural loops), ignoring unwind blocks."""
    if "_loops" in body:
        return body["_loops"]
    bl = body["blocks"]
    succ = {}
    for i, b in enumerate(bl):
        if b["c"]:
            continue
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            s = [t[2]]
        elif k == "call":
            s = [t[4]] if t[4] >= 0 else []
        elif k == "assert":
            s = [t[4]]
        elif k == "yield":
            s = [t[2]]
        else:
            s = []
        succ[i] = [x for x in s if not bl[x]["c"]]
    # dominators (iterative)
    order, seen = [], set()
    stack = [(0, iter(succ.get(0, [])))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                stack.append((m, iter(succ.get(m, []))))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    pos = {n: i for i, n in enumerate(order)}
    preds = {n: [] for n in order}
    for n in order:
        for m in succ[n]:
            preds[m].append(n)
    dom = {order[0]: {order[0]}}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            ps = [dom[p] for p in preds[n] if p in dom]
            d = set.intersection(*ps) | {n} if ps else {n}
            if dom.get(n) != d:
                dom[n] = d
                changed = True
    loops = {}
    for n in order:
        for m in succ[n]:
            if m in dom[n]:
                blocks = loops.setdefault(m, {m})
                st = [n]
                while st:
                    x = st.pop()
                    if x in blocks:
                        continue
                    blocks.add(x)
                    st.extend(preds[x])
            elif pos[m] <= pos[n]:
                raise AnalysisError("irreducible control flow in " + body["path"])
    body["_loops"] = loops
    return loops


# ------------------------------------------------------------------ facts
DISC_VALUES = {}        # discriminant term -> the values its type allows


class Facts:
    __slots__ = ("eq", "ne", "bits", "ord")

    def __init__(self):
        self.eq, self.ne, self.bits, self.ord = {}, {}, {}, ()

    def copy(self):
        f = Facts()
        f.eq, f.ne, f.bits, f.ord = dict(self.eq), dict(self.ne), dict(self.bits), self.ord
        return f

    # -- order relation -----------------------------------------------------
    def _edges(self):
        """(a, b, strict) meaning a <= b or a < b."""
        es = []
        nodes = set()
        for a, b, r in self.ord:
            nodes.add(a)
            nodes.add(b)
            if r == "lt":
                es.append((a, b, True))
            elif r == "le":
                es.append((a, b, False))
            elif r == "eq":
                es.append((a, b, False))
                es.append((b, a, False))
        for t, v in self.eq.items():
            if t in nodes:
                c = I(v)
                nodes.add(c)
                es.append((t, c, False))
                es.append((c, t, False))
        return es, nodes

    @staticmethod
    def _implied(nodes, given=()):
        es = []
        # integers have no value between two neighbours
        for a, b, strict in given:
            if strict and b[0] == "i" and a[0] not in ("i", "dur") and b[1] > 0:
                es.append((a, I(b[1] - 1), False))
                nodes.add(I(b[1] - 1))
            if strict and a[0] == "i" and b[0] not in ("i", "dur"):
                es.append((I(a[1] + 1), b, False))
                nodes.add(I(a[1] + 1))
            if strict and a[0] == "lin" and sgn(a[2], a[1]) < 0:
                up = binop("Add", a, I(1), a[1])
                es.append((up, b, False))
                nodes.add(up)
        consts = sorted((n for n in nodes if n[0] == "i"), key=lambda n: n[1])
        for x, y in zip(consts, consts[1:]):
            es.append((x, y, x != y))
        durs = sorted((n for n in nodes if n[0] == "dur"), key=lambda n: n[1])
        for x, y in zip(durs, durs[1:]):
            es.append((x, y, x != y))
        # constants apart, same linear form (no wrap assumed)
        groups = {}
        for n in nodes:
            if n[0] == "lin":
                key = n[3]
                c = sgn(n[2], n[1])
            elif n[0] in ("i", "dur"):
                continue
            else:
                key = ((n, 1),)
                c = 0
            groups.setdefault(key, []).append((c, n))
        for g in groups.values():
            g.sort(key=lambda x: x[0])
            for (c1, x), (c2, y) in zip(g, g[1:]):
                es.append((x, y, c1 != c2))
        # multiples and shifts of one value (no wrap assumed)
        for n in nodes:
            if n[0] == "lin" and len(n[3]) == 1 and 2 <= n[3][0][1] < (1 << 32) and sgn(n[2], n[1]) >= 0 and n[3][0][0] in nodes:
                es.append((n[3][0][0], n, sgn(n[2], n[1]) > 0))
            if n[0] == "bin" and n[1] == "Shr" and n[3] in nodes:
                es.append((n, n[3], False))
        return es

    def closure(self, extra_nodes=()):
        es, nodes = self._edges()
        nodes |= set(extra_nodes)
        nodes |= {n[3] for n in nodes if n[0] == "bin" and n[1] == "Shr"}
        es = es + self._implied(nodes, es)
        reach = {}
        adj = {}
        for a, b, s in es:
            adj.setdefault(a, []).append((b, s))
        return adj

    def rel(self, a, b):
        """Strongest known relation: 'lt','le','eq','ge','gt','ne', or None."""
        if a == b:
            return "eq"
        adj = self.closure((a, b))

        def reach(x, y):
            # 0: not reachable, 1: <=, 2: <
            best = {x: 0}
            todo = [(x, 0)]
            res = 0
            while todo:
                n, s = todo.pop()
                for m, st in adj.get(n, []):
                    ns = 1 if (s or st) else 0
                    if m not in best or best[m] < ns:
                        best[m] = ns
                        todo.append((m, ns))
            if y in best:
                return 2 if best[y] else 1
            return 0

        up, down = reach(a, b), reach(b, a)
        if up == 2:
            return "lt"
        if down == 2:
            return "gt"
        if up and down:
            return "eq"
        ne = any((r == "ne" and {x, y} == {a, b}) for x, y, r in self.ord)
        if ne:
            if up:
                return "lt"
            if down:
                return "gt"
            return "ne"
        if up:
            return "le"
        if down:
            return "ge"
        return None

    def holds(self, op, a, b):
        """True / False / None."""
        r = self.rel(a, b)
        if r is None:
            return None
        tab = {
            "lt": {"lt": True, "le": None, "eq": False, "ge": False, "gt": False, "ne": None},
            "le": {"lt": True, "le": True, "eq": True, "ge": None, "gt": False, "ne": None},
            "eq": {"lt": False, "le": None, "eq": True, "ge": None, "gt": False, "ne": False},
        }
        return tab[op][r]

    def add_ord(self, op, a, b):
        """Returns False on contradiction."""
        h = self.holds(op, a, b) if op != "ne" else None
        if op == "ne":
            h = self.holds("eq", a, b)
            if h is True:
                return False
        elif h is False:
            return False
        if h is not True:
            self.ord = self.ord + ((a, b, op),)
        return True

    # -- constants ------------------------------------------------------------
    def const(self, t):
        if is_i(t):
            return t[1]
        if t in self.eq:
            return self.eq[t]
        if t[0] == "bin" and t[1] == "BitAnd" and is_i(t[4]):
            b = self.bits.get(t[3])
            if b and (t[4][1] & ~b[0]) == 0:
                return b[1] & t[4][1]
        if t[0] in ("eq", "lt", "le", "not"):
            v = self.truth(t)
            if v is not None:
                return int(v)
        if t[0] == "disc" and t[1][0] == "cmp":
            r = self.rel(t[1][1], t[1][2])
            if r in ("lt", "eq", "gt"):
                return {"lt": 255, "eq": 0, "gt": 1}[r]
        return None

    def truth(self, t):
        if is_i(t):
            return bool(t[1])
        if t in self.eq:
            return bool(self.eq[t])
        k = t[0]
        if k == "not":
            v = self.truth(t[1])
            return None if v is None else not v
        if k == "eq":
            a, b = t[1], t[2]
            if is_i(b):
                c = self.const(a) if a[0] not in ("eq", "lt", "le", "not") else None
                if c is not None:
                    return c == b[1]
                if b[1] in self.ne.get(a, ()):
                    return False
                if a[0] == "bin" and a[1] == "BitAnd" and is_i(a[4]):
                    bits = self.bits.get(a[3])
                    if bits:
                        m = a[4][1] & bits[0]
                        if (bits[1] & m) != (b[1] & m):
                            return False
                if b[1] == 0 and "$len" in a and any(y == a and r == "lt" for _, y, r in self.ord):
                    return False        # something is below this length
            return self.holds("eq", a, b)
        if k in ("lt", "le"):
            return self.holds(k, t[1], t[2])
        if k == "bin" and t[1] == "BitAnd" and t[2] == 8:
            x, y = self.truth(t[3]), self.truth(t[4])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if k == "bin" and t[1] == "BitOr" and t[2] == 8:
            x, y = self.truth(t[3]), self.truth(t[4])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def set_const(self, t, v):
        """t == v ; False on contradiction."""
        c = self.const(t)
        if c is not None:
            return c == v
        if v in self.ne.get(t, ()):
            return False
        if t[0] in ("eq", "lt", "le", "not"):
            return self.assume(t, bool(v))
        if t[0] == "bin" and t[1] in ("BitAnd", "BitOr") and t[2] == 8:
            return self.assume(t, bool(v))
        if t[0] == "bin" and t[1] == "BitAnd" and is_i(t[4]):
            m = t[4][1]
            if v & ~m:
                return False
            om, ov = self.bits.get(t[3], (0, 0))
            if (om & m) and (ov & om & m) != (v & om & m):
                return False
            self.bits[t[3]] = (om | m, ov | v)
        if t[0] == "disc" and t[1][0] == "cmp":
            a, b = t[1][1], t[1][2]
            if v == 255:
                ok_ = self.add_ord("lt", a, b)
            elif v == 1:
                ok_ = self.add_ord("lt", b, a)
            else:
                ok_ = self.add_ord("eq", a, b)
            if not ok_:
                return False
        b = self.bits.get(t)
        if b and (v & b[0]) != b[1]:
            return False
        self.eq[t] = v
        # propagate order contradictions
        if any(t in (x, y) for x, y, _ in self.ord):
            for x, y, r in self.ord:
                if r == "ne":
                    if self.holds("eq", x, y) is True:
                        return False
            if self._cyclic():
                return False
        return True

    def _cyclic(self):
        es, nodes = self._edges()
        for n in nodes:
            for m in nodes:
                if n is not m and n[0] == "i" and m[0] == "i" and n[1] < m[1]:
                    r = self.rel2(m, n)
                    if r:
                        return True
        return False

    def rel2(self, a, b):
        adj = {}
        es, nodes = self._edges()
        for x, y, s in es:
            adj.setdefault(x, []).append(y)
        seen, todo = {a}, [a]
        while todo:
            n = todo.pop()
            if n == b:
                return True
            for m in adj.get(n, []):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return False

    def set_ne(self, t, v):
        c = self.const(t)
        if c is not None:
            return c != v
        if t[0] in ("eq", "lt", "le", "not") and v in (0, 1):
            return self.assume(t, not v)
        if t[0] == "bin" and t[1] == "BitAnd" and is_i(t[4]) and pow2(t[4][1]) and v in (0, t[4][1]):
            return self.set_const(t, t[4][1] - v)
        if t[0] == "disc" and t[1][0] == "cmp":
            a, b = t[1][1], t[1][2]
            if v == 255:
                if not self.add_ord("le", b, a):
                    return False
            elif v == 1:
                if not self.add_ord("le", a, b):
                    return False
            elif not self.add_ord("ne", a, b):
                return False
        self.ne[t] = self.ne.get(t, frozenset()) | {v}
        if t[0] == "bin" and t[1] == "BitAnd" and is_i(t[4]) and bin(t[4][1]).count("1") <= 4:
            # what the values left for the masked bits have in common
            m = t[4][1]
            om, ov = self.bits.get(t[3], (0, 0))
            left, x = [], m
            while True:
                if x not in self.ne[t] and (x & om) == (ov & m):
                    left.append(x)
                if x == 0:
                    break
                x = (x - 1) & m
            if not left:
                return False
            if len(left) == 1:
                return self.set_const(t, left[0])
            same = m
            for y in left:
                same &= ~(y ^ left[0])
            if same & ~om:
                self.bits[t[3]] = (om | same, ov | left[0] & same)
        if t in DISC_VALUES:
            left = DISC_VALUES[t] - self.ne[t]
            if not left:
                return False
            if len(left) == 1:
                return self.set_const(t, next(iter(left)))
        if t[0] == "disc" and t[1][0] == "cmp":
            left = {255, 0, 1} - self.ne[t]
            if len(left) == 1:
                self.eq[t] = left.pop()
        return True

    def assume(self, t, v):
        k = t[0]
        if is_i(t):
            return bool(t[1]) == v
        cur = self.truth(t)
        if cur is not None:
            return cur == v
        if k == "not":
            return self.assume(t[1], not v)
        if k == "eq":
            a, b = t[1], t[2]
            if is_i(b):
                return self.set_const(a, b[1]) if v else self.set_ne(a, b[1])
            return self.add_ord("eq" if v else "ne", a, b)
        if k == "lt":
            return self.add_ord("lt", t[1], t[2]) if v else self.add_ord("le", t[2], t[1])
        if k == "le":
            return self.add_ord("le", t[1], t[2]) if v else self.add_ord("lt", t[2], t[1])
        if k == "bin" and t[1] == "BitAnd" and t[2] == 8 and v:
            return self.assume(t[3], True) and self.assume(t[4], True)
        if k == "bin" and t[1] == "BitOr" and t[2] == 8 and not v:
            return self.assume(t[3], False) and self.assume(t[4], False)
        self.eq[t] = int(v)
        return True

    def bit(self, t, i):
        """Known value of bit i of t, or None."""
        if is_i(t):
            return t[1] >> i & 1
        c = self.eq.get(t)
        if c is not None:
            return c >> i & 1
        b = self.bits.get(t)
        if b and b[0] >> i & 1:
            return b[1] >> i & 1
        if t[0] == "bin":
            x, y = None, None
            if t[1] in ("BitAnd", "BitOr", "BitXor"):
                x, y = self.bit(t[3], i), self.bit(t[4], i)
                if t[1] == "BitAnd":
                    if x == 0 or y == 0:
                        return 0
                    if x == 1 and y == 1:
                        return 1
                if t[1] == "BitOr":
                    if x == 1 or y == 1:
                        return 1
                    if x == 0 and y == 0:
                        return 0
                if t[1] == "BitXor" and x is not None and y is not None:
                    return x ^ y
            if t[1] == "Shr" and is_i(t[4]):
                return self.bit(t[3], i + t[4][1])
        if t[0] == "lin":
            # carries cannot come from below the lowest set bit of any coefficient
            low = None
            for a, k in t[3]:
                tz = (k & -k).bit_length() - 1
                s = 0
                if k & (k - 1) == 0:
                    # atom << tz; atom's own known trailing zeros
                    while s < 64 and self.bit(a, s) == 0 and s + tz <= i:
                        s += 1
                low = tz + s if low is None else min(low, tz + s)
            if i < low:
                return t[2] >> i & 1
        return None


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ("body", "fid", "bb", "si", "dst", "ret_bb", "active", "site", "wrap")

    def __init__(self, body, fid, dst, ret_bb, site):
        self.body, self.fid, self.dst, self.ret_bb, self.site = body, fid, dst, ret_bb, site
        self.bb, self.si, self.active, self.wrap = 0, 0, {}, None

    def copy(self):
        f = Frame(self.body, self.fid, self.dst, self.ret_bb, self.site)
        f.bb, f.si, f.active, f.wrap = self.bb, self.si, self.active, self.wrap
        return f


class State:
    __slots__ = ("mem", "f", "ev", "frames", "wr", "exit", "ret")

    def copy(self):
        s = State()
        s.mem, s.f, s.ev = dict(self.mem), self.f.copy(), list(self.ev)
        s.frames = [x.copy() for x in self.frames]
        s.wr = set(self.wr)
        s.exit, s.ret = self.exit, self.ret
        return s


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, prog, opaque=(), instant_native=True, extra_native=None, follow=None):
        self.p = prog
        self.fresh_n = FRESH
        self.fid_n = itertools.count(1)
        self.opaque = [re.compile(x) if isinstance(x, str) else x for x in opaque]
        self.instant_native = instant_native
        self.extra_native = extra_native or {}
        self.consts = {}
        self.disc_ty = {}
        self.sym_ty = {}
        self.loopvals = {}      # havocked symbol -> set of values it may stand for (initial and per trip)
        self.loopinfo = {}
        self.steps = 0
        self.visited = set()    # bodies followed
        self.sites = set()      # effect sites seen
        self.max_inline = 60

    # ---- symbols and memory
    def fresh(self, hint, ty=None):
        s = ("s", next(self.fresh_n), hint)
        if ty is not None:
            self.sym_ty[s] = ty
        return s

    def initial(self, root):
        if root[0] == "P":
            return ("*", root[1])
        if root[0] == "G":
            return ("*", ("app", "static", ("str", root[1])))
        return ("uninit", root)

    @staticmethod
    def split(loc):
        return loc

    def distinct(self, st, a, b):
        if a == b:
            return False
        if is_i(a) and is_i(b):
            return True
        return st.f.rel(a, b) in ("lt", "gt", "ne")

    def alias_scan(self, st, root, path):
        """Entries written through a different index that may be the same element."""
        out = []
        for k, s in enumerate(path):
            if s[0] != "i":
                continue
            pre = path[:k]
            for (r, p) in st.mem:
                if r == root and len(p) > k and p[:k] == pre and p[k][0] == "i" and p[k][1] != s[1]:
                    if self.apart(p[k + 1:], path[k + 1:]):
                        continue
                    if not self.distinct(st, p[k][1], s[1]):
                        out.append((r, p))
        return out

    @staticmethod
    def apart(p, q):
        """Do the paths lead to different fields?"""
        for a, b in zip(p, q):
            if a[0] == "f" and b[0] == "f":
                if a[1] != b[1]:
                    return True
            elif a != b:
                return False
        return False

    def read(self, st, loc):
        root, path = loc
        base, rest = None, None
        for k in range(len(path), -1, -1):
            v = st.mem.get((root, path[:k]))
            if v is not None:
                base, rest, at = v, path[k:], k
                break
        else:
            base, rest, at = self.initial(root), path, 0
        if any(s[0] == "i" for s in rest):
            # may one of the later writes through another index have hit this element?
            if self.alias_scan(st, root, path):
                v = self.fresh("elem")
                st.mem[(root, path)] = v
                return v
        for s in rest:
            base = field(base, s[1]) if s[0] == "f" else elem(base, s[1])
        n = len(path)
        subs = {p[n:]: v for (r, p), v in st.mem.items() if r == root and len(p) > n and p[:n] == path}
        if subs:
            base = self.overlay(base, subs)
        return base

    def overlay(self, base, subs):
        if base[0] == "ag":
            fs = []
            for nme, v in base[3]:
                here = {p[1:]: x for p, x in subs.items() if p[0] == ("f", nme)}
                if () in here:
                    v = here.pop(())
                if here:
                    v = self.overlay(v, here)
                fs.append((nme, v))
            rest = {p: x for p, x in subs.items() if not any(p[0] == ("f", nme) for nme, _ in base[3])}
            out = ("ag", base[1], base[2], tuple(fs))
            return ("upd", out, tuple(sorted(rest.items(), key=repr))) if rest else out
        return ("upd", base, tuple(sorted(subs.items(), key=repr)))

    def write(self, st, loc, val, site=None, log=True):
        root, path = loc
        n = len(path)
        dead = [k for k in st.mem if k[0] == root and len(k[1]) > n and k[1][:n] == path]
        for k in dead:
            del st.mem[k]
        if any(s[0] == "i" for s in path):
            for k in self.alias_scan(st, root, path):
                del st.mem[k]
        st.mem[(root, path)] = val
        st.wr.add((root, path))
        if log and root[0] != "L" and not any(s == ("f", "$len") for s in path):
            st.ev.append(Ev("write", loc=loc, val=val, site=site or ""))

    def havoc_loc(self, st, loc, hint="havoc", ty=None, log=False):
        root, path = loc
        cut = next((k for k, s in enumerate(path) if s[0] == "i"), None)
        if cut is not None:
            # elements change, the length does not
            whole, lenloc = (root, path[:cut]), (root, path[:cut] + (("f", "$len"),))
            ln = self.read(st, lenloc)
            had = st.wr & {whole, lenloc}
            self.write(st, whole, self.fresh(hint), log=log)
            self.write(st, lenloc, ln, log=False)
            st.wr -= {whole, lenloc} - had
            st.wr.add((root, path[:cut + 1]))
            return
        self.write(st, loc, self.fresh(hint, ty), log=log)

    # ---- places
    def is_pin_field(self, name):
        return name in ("pointer", "__pointer")

    def deref(self, st, v):
        """Location a pointer value points to."""
        if v[0] == "ref":
            return v[1]
        if v[0] == "guard":
            return v[1]
        return (("P", v), ())

    @staticmethod
    def ref(loc):
        root, path = loc
        if root[0] == "P" and not path:
            return root[1]
        return ("ref", loc)

    def place(self, st, fr, pl):
        loc = (("L", fr.fid, pl["l"]), ())
        cur_t = fr.body["locals"][pl["l"]][0]
        pend = ""
        for s in pl["p"]:
            k = s[0]
            if k == "d":
                v = self.read(st, loc)
                if v[0] == "slice":
                    loc = (("S", v), ())
                else:
                    loc = self.deref(st, v)
            elif k == "f":
                name = s[3]
                if self.is_pin_field(name):
                    continue
                if (tp := self.p.types[cur_t] if cur_t is not None else None) and tp.get("k") == "adt":
                    name = self.p.rename.get((tp["path"], name), name)
                loc = self.step(loc, ("f", pend + name))
                pend = ""
                cur_t = s[2]
                continue
            elif k == "v":
                pend = s[2] + "."
                continue
            elif k == "i":
                i = self.read(st, (("L", fr.fid, s[1]), ()))
                loc = self.step(loc, ("i", i))
            elif k == "ci":
                if s[2]:
                    ln = self.vec_len(st, loc)
                    loc = self.step(loc, ("i", binop("Sub", ln, I(s[1]), 64)))
                else:
                    loc = self.step(loc, ("i", I(s[1])))
            else:
                raise AnalysisError("projection %s in %s" % (s, fr.body["path"]))
            # type after deref/index
            if cur_t is not None:
                tt = self.p.types[cur_t]
                if k == "d":
                    cur_t = tt.get("t") if tt.get("k") in ("ref", "ptr") else None
                else:
                    cur_t = tt.get("t")
        return loc

    def step(self, loc, s):
        root, path = loc
        if root[0] == "S" and s[0] == "i":
            _, base, off, ln = root[1]
            r, p = base
            return (r, p + (("i", binop("Add", s[1], off, 64)),))
        return (root, path + (s,))

    def vec_len(self, st, loc):
        root, path = loc
        if root[0] == "S":
            return root[1][3]
        v = self.read(st, (root, path + (("f", "$len"),)))
        return v

    # ---- operands
    def constant(self, c, fr):
        k = c["k"]
        if k == "int":
            return I(int(c["v"]))
        if k == "static":
            return ("ref", (("G", Program.norm(c["path"])), ()))
        if k == "cref":
            inner = self.constant(c["v"], fr)
            root = ("C", json.dumps(c["v"], sort_keys=True))
            return ("cref", inner)
        if k in ("str", "bytes"):
            return ("str", c["v"])
        if k == "cslice":
            return ("cslice", tuple(self.constant(x, fr) for x in c["f"]))
        if k == "agg":
            t = self.p.types[c["t"]]
            return self.const_agg(t, c, fr)
        if k == "fn":
            return ("fn", self.p.types[c["t"]].get("path", "?"))
        if k == "zst":
            t = self.p.types[c["t"]]
            if t.get("k") == "adt" and t["adt"] == "struct":
                return ("ag", t["path"], "", tuple((f[0], UNIT) for f in t["vs"][0]["f"]))
            if t.get("k") == "closure":
                return ("ag", "closure:" + t["path"], "", ())
            if t.get("k") == "tuple":
                return UNIT
            return ("zst", t["s"])
        if k == "promoted":
            return ("promoted", fr.body["id"], c["n"])
        if k == "cbody" and c["inst"] in self.p.bodies:
            v = self.const_body(c["inst"])
            if v is not None:
                return v
        return ("opaque", c.get("s", "?"), self.p.tname(c["t"]))

    def const_body(self, bid):
        """Value of a constant whose (generic) body the compiler did not evaluate."""
        if bid not in self.consts:
            self.consts[bid] = None
            keep = getattr(self, "params", None)
            res = self.run(self.p.bodies[bid])
            self.params = keep
            if len(res) == 1 and res[0].exit.k == "return" and not any(x[0] in ("s", "ref", "uninit") for x in atoms(res[0].ret)):
                self.consts[bid] = res[0].ret
        return self.consts[bid]

    def const_agg(self, t, c, fr):
        fs = [self.constant(x, fr) for x in c["f"]]
        if t.get("k") == "tuple":
            return ("ag", "tuple", "", tuple((str(i), v) for i, v in enumerate(fs)))
        if t.get("k") == "array":
            return ("ag", "array", "", tuple((str(i), v) for i, v in enumerate(fs)))
        if t.get("k") == "adt":
            if t["path"] == "std::time::Duration":
                secs, nanos = fs[0], fs[1]
                while nanos[0] == "ag":
                    nanos = nanos[3][0][1]
                m = re.match(r"Scalar\(0x([0-9a-f]+)\)$", nanos[1]) if nanos[0] == "opaque" else None
                if m:
                    nanos = I(int(m.group(1), 16))
                if is_i(secs) and is_i(nanos):
                    return ("dur", secs[1] * 10**9 + nanos[1])
            v = t["vs"][c["v"]]
            pre = v["n"] + "." if t["adt"] == "enum" else ""
            names = [self.p.rename.get((t["path"], f[0]), f[0]) for f in v["f"]]
            return ag(t["path"], v["n"] if t["adt"] == "enum" else "", [(pre + n, x) for n, x in zip(names, fs)])
        return ("opaque", "agg", t["s"])

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, self.place(st, fr, o[1]))
        if o[0] == "rc":
            return FALSE
        v = self.constant(o[1], fr)
        if v[0] == "cref":
            n = next(self.fresh_n)
            st.mem[(("T", n), ())] = v[1]
            return ("ref", (("T", n), ()))
        if v[0] == "promoted":
            return self.promoted(st, v[1], v[2])
        if v[0] == "cslice":
            n = next(self.fresh_n)
            st.mem[(("T", n), ())] = ("ag", "array", "", tuple((str(i), x) for i, x in enumerate(v[1])))
            return ("slice", (("T", n), ()), I(0), I(len(v[1])))
        return v

    def promoted(self, st, bid, n):
        body = self.p.bodies[bid]["promoted"][n]
        # straight-line constant body: evaluate its statements in a throw-away frame
        fid = next(self.fid_n)
        b = dict(body)
        b.update(id=-1, path="promoted", promoted=[])
        fr = Frame(b, fid, None, None, "")
        bb = 0
        for _ in range(20):
            blk = body["blocks"][bb]
            for s in blk["s"]:
                self.statement(st, fr, s)
            t = blk["t"]
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "ret":
                v = self.read(st, (("L", fid, 0), ()))
                return v
            else:
                break
        return self.fresh("promoted")

    def opty(self, fr, o):
        if o[0] in ("c", "m"):
            return o[1]["t"]
        if o[0] == "k":
            return o[1]["t"]
        return None

    def tinfo(self, ti):
        """(width, signed, float, bool)"""
        if ti is None or ti < 0:
            return 64, False, False, False
        t = self.p.types[ti]
        k = t.get("k")
        if k == "bool":
            return 8, False, False, True
        if k in ("int", "uint"):
            return (t["w"] if t["w"] > 0 else 64), k == "int", False, False
        if k == "float":
            return t["w"], False, True, False
        if k == "char":
            return 32, False, False, False
        return 64, False, False, False

    def psize(self, ti):
        """usize and isize"""
        t = self.p.types[ti] if ti is not None and ti >= 0 else {}
        return t.get("k") in ("int", "uint") and t["w"] <= 0

    # ---- rvalues
    def rvalue(self, st, fr, rv, pl):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "rawptr"):
            loc = self.place(st, fr, rv[2])
            if loc[0][0] == "S":
                return loc[0][1] if not loc[1] else ("ref", loc)
            # a reborrow through a guard keeps pointing at the data
            return self.ref(loc)
        if k == "repeat":
            return ("repeat", self.operand(st, fr, rv[1]))
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            kind = rv[1]
            fw, fs, ff, _ = self.tinfo(self.opty(fr, rv[2]))
            tw, ts, tf, _ = self.tinfo(rv[3])
            if kind in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                if kind == "IntToInt" and fw > 32 and self.psize(rv[3]) and not self.psize(self.opty(fr, rv[2])) and fr.body["local"] and v[0] != "disc":
                    import inbounds
                    h = inbounds.hi(st.f, v)        # usize has 32 bits on the target
                    return v if h is not None and h <= mask(32) else binop("BitAnd", cast(kind, v, fw, fs, 64, ts), I(mask(32)), 64)
                if kind == "IntToInt" and v[0] == "disc":
                    return v if tw >= 8 else cast(kind, v, fw, fs, tw, ts)
                return cast(kind, v, fw, fs, tw, ts)
            return v
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            w, s, fl, isb = self.tinfo(self.opty(fr, rv[2]))
            op = rv[1]
            if op.endswith("WithOverflow"):
                r = binop(op[:-len("WithOverflow")], a, b, w, s, fl)
                return ("ag", "tuple", "", (("0", r), ("1", ("app", "overflow", ("str", op), a, b, I(32 if self.psize(self.opty(fr, rv[2])) else w), I(int(bool(s)))))))
            if op == "Offset":
                return ("app", "offset", a, b)
            c = st.f.const(a), st.f.const(b)
            if isb and op in ("BitAnd", "BitOr", "BitXor"):
                pass
            return self.fold(st, binop(op, a, b, w, s, fl))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "PtrMetadata":
                return self.ptr_len(st, a)
            w, s, fl, isb = self.tinfo(self.opty(fr, rv[2]))
            return self.fold(st, unop(rv[1], a, w, s, fl, isb))
        if k == "discr":
            loc = self.place(st, fr, rv[1])
            return self.disc(st, self.read(st, loc), rv[1]["t"])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "adt":
                if kk[1] == "std::pin::Pin":
                    return ops[0]
                pre = kk[3] + "." if self.is_enum(pl["t"]) else ""
                names = [self.p.rename.get((kk[1], f), f) for f in kk[4]]
                if kk[1] == "std::time::Duration":
                    return ("ag", kk[1], "", tuple(zip(names, ops)))
                return ag(kk[1], kk[3] if pre else "", [(pre + n, v) for n, v in zip(names, ops)])
            if kk[0] == "tuple":
                return ("ag", "tuple", "", tuple((str(i), v) for i, v in enumerate(ops)))
            if kk[0] == "array":
                return ("ag", "array", "", tuple((str(i), v) for i, v in enumerate(ops)))
            if kk[0] in ("closure", "coroutine"):
                return ("ag", kk[0] + ":" + kk[1], "", tuple((str(i), v) for i, v in enumerate(ops)))
            if kk[0] == "rawptr":
                return ops[0]
        raise AnalysisError("rvalue %s in %s" % (json.dumps(rv)[:200], fr.body["path"]))

    def fold(self, st, t):
        c = st.f.const(t)
        return I(c) if c is not None else t

    def is_enum(self, ti):
        t = self.p.types[ti]
        return t.get("k") == "adt" and t["adt"] == "enum"

    def ptr_len(self, st, a):
        if a[0] == "slice":
            return a[3]
        if a[0] == "str":
            return I(len(a[1].encode()))
        return self.vec_len(st, self.deref(st, a))

    def disc(self, st, v, ti):
        t = self.p.types[ti]
        if t.get("k") == "coroutine":
            d = field(v, "$state")
            c = st.f.const(d)
            return I(c) if c is not None else d
        if v[0] == "upd":
            v0 = v[1]
            if v0[0] == "ag":
                v = v0
        if v[0] == "ag" and t.get("k") == "adt":
            for x in t["vs"]:
                if x["n"] == v[2]:
                    return I(int(x["d"]) & 0xff if t["path"] == "std::cmp::Ordering" else int(x["d"]))
        if t.get("k") == "adt" and t["path"] == "std::cmp::Ordering" and v[0] == "cmp":
            d = ("disc", v)
        else:
            d = ("disc", v)
        self.disc_ty[d] = ti
        if t.get("k") == "adt" and t["path"] != "std::cmp::Ordering" and len(t["vs"]) < 16:
            DISC_VALUES[d] = frozenset(int(x["d"]) for x in t["vs"])
        c = st.f.const(d)
        return I(c) if c is not None else d

    # ---- statements
    def statement(self, st, fr, s):
        if s[0] == "=":
            v = self.rvalue(st, fr, s[2], s[1])
            self.write(st, self.place(st, fr, s[1]), v, s[3])
        elif s[0] == "setd":
            loc = self.place(st, fr, s[1])
            t = self.p.types[s[1]["t"]]
            if t.get("k") == "adt":
                vn = t["vs"][s[2]]["n"]
                fs = [(vn + "." + f[0], self.read(st, self.step(loc, ("f", vn + "." + f[0])))) for f in t["vs"][s[2]]["f"]]
                self.write(st, loc, ag(t["path"], vn, fs), s[3])
            elif t.get("k") == "coroutine":
                self.write(st, self.step(loc, ("f", "$state")), I(s[2]), s[3], log=False)
        elif s[0] == "intr":
            pass

    # ---- running
    def run(self, body, args=None, mem=None, facts=None, ev=None):
        st = State()
        st.mem, st.f, st.ev, st.frames, st.wr, st.exit, st.ret = dict(mem or {}), facts.copy() if facts else Facts(), list(ev or []), [], set(), None, None
        fid = next(self.fid_n)
        fr = Frame(body, fid, None, None, "")
        self.visited.add(body["id"])
        names = body["locals"]
        args = args or {}
        self.params = []
        for i in range(1, body["argc"] + 1):
            if i in args:
                v = args[i]
            else:
                v = ("s", next(self.fresh_n), names[i][1] or ("arg%d" % i))
                self.sym_ty[v] = names[i][0]
            self.params.append(v)
            st.mem[(("L", fid, i), ())] = v
        st.frames = [fr]
        if 0 in loops_of(body):
            return self.explore(self.enter(st, fr, 0), None)
        return self.explore([st], None)

    def explore(self, work, stop):
        """Runs states until they end.  stop(frame, target) may claim a jump."""
        done = []
        work = list(work)
        while work:
            st = work.pop()
            if st.exit is not None:
                done.append(st)
                continue
            nxt = self.step_state(st, stop)
            for s in nxt:
                if s.exit is not None:
                    done.append(s)
                else:
                    work.append(s)
            if len(done) > MAX_PATHS:
                raise AnalysisError("too many paths")
        return done

    def finish(self, st, kind, **kw):
        st.exit = Ev(kind, **kw)
        return [st]

    def step_state(self, st, stop):
        fr = st.frames[-1]
        blk = fr.body["blocks"][fr.bb]
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise AnalysisError("analysis budget exhausted in " + fr.body["path"])
        for s in blk["s"]:
            self.statement(st, fr, s)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return self.jump(st, t[1], stop)
        if k == "ret":
            return self.do_return(st, stop)
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(st, fr, t, stop)
        if k == "drop":
            loc = self.place(st, fr, t[1])
            self.do_drop(st, loc, t[1]["t"], t[3])
            return self.jump(st, t[2], stop)
        if k == "assert":
            return self.do_assert(st, fr, t, stop)
        if k == "yield":
            v = self.operand(st, fr, t[1])
            st.ev.append(Ev("yield", val=v, site=t[4]))
            self.write(st, self.place(st, fr, t[3]), self.fresh("resume"), t[4])
            return self.jump(st, t[2], stop)
        if k == "call":
            return self.call(st, fr, t, stop)
        raise AnalysisError("terminator %s in %s" % (k, fr.body["path"]))

    def do_assert(self, st, fr, t, stop):
        c = self.operand(st, fr, t[1])
        want = t[2]
        out = []
        bad = st.copy()
        if t[3] in ("divzero", "remzero") and bad.f.assume(c, not want):
            bad.ev.append(Ev("panic", why=t[3], site=t[5]))
            out += self.finish(bad, "panic", why=t[3], site=t[5], callee="")
        elif t[3] == "bounds":
            if bad.f.assume(c, not want):
                st.ev.append(Ev("bounds", cond=c, known=None if st.f.truth(c) is None else st.f.truth(c) == want, facts=st.f.copy(), site=t[5]))
        elif t[3].startswith("overflow"):
            v = st.f.truth(c)
            if v is None and t[5].startswith("src/"):
                st.ev.append(Ev("ovf", op=t[3].split(":")[-1], cond=c, facts=st.f.copy(), site=t[5]))
            if c[0] == "app" and v is None:
                return self.jump(st, t[4], stop)
        if st.f.assume(c, want):
            out += self.jump(st, t[4], stop)
        return out

    def switch(self, st, fr, t, stop):
        v = self.operand(st, fr, t[1])
        c = st.f.const(v)
        ty = self.opty(fr, t[1])
        w = self.tinfo(ty)[0]

        def norm(x):
            x = int(x)
            if v[0] == "disc" and v[1][0] == "cmp":
                return x & 0xff
            return x
        targets = [(norm(a), b) for a, b in t[2]]
        if c is not None:
            if v[0] == "i" and w == 8:
                pass
            for a, b in targets:
                if a == c or (a & 0xff) == c and w == 8:
                    return self.jump(st, b, stop)
            return self.jump(st, t[3], stop)
        out = []
        for a, b in targets:
            s2 = st.copy()
            if v[0] in ("eq", "lt", "le", "not"):
                okk = s2.f.assume(v, bool(a))
            else:
                okk = s2.f.set_const(v, a)
            if okk:
                s2.ev.append(Ev("branch", cond=v, val=a, site=t[4]))
                out += self.jump(s2, b, stop)
        # otherwise
        okk = True
        if v[0] in ("eq", "lt", "le", "not") or self.tinfo(ty)[3]:
            okk = st.f.assume(v, not targets[0][0]) if len(targets) == 1 else False
        else:
            for a, _ in targets:
                okk = okk and st.f.set_ne(v, a)
            if okk and v[0] == "disc" and v in self.disc_ty:
                tt = self.p.types[self.disc_ty[v]]
                if tt.get("k") == "adt":
                    left = [int(x["d"]) for x in tt["vs"] if norm(x["d"]) not in [a for a, _ in targets] and norm(x["d"]) not in st.f.ne.get(v, ())]
                    if tt["path"] != "std::cmp::Ordering":
                        if len(left) == 0:
                            okk = False
                        elif len(left) == 1:
                            okk = st.f.set_const(v, left[0])
        if okk:
            st.ev.append(Ev("branch", cond=v, val=None, site=t[4]))
            out += self.jump(st, t[3], stop)
        return out

    def jump(self, st, bb, stop):
        fr = st.frames[-1]
        loops = loops_of(fr.body)
        # leaving loops
        if fr.active:
            keep = {h: m for h, m in fr.active.items() if bb in loops[h]}
            if len(keep) != len(fr.active):
                fr.active = keep
        if stop is not None:
            r = stop(st, fr, bb)
            if r is not None:
                st.exit = Ev(r)
                return [st]
        if bb in loops:
            if bb in fr.active:
                sym = self.loopinfo[fr.active[bb]]
                nxt = {s: self.read(st, loc) for loc, s in sym["syms"].items()}
                st.exit = Ev("loopback", loop=fr.active[bb], next=nxt, site=fr.body["path"])
                for s, v in nxt.items():
                    self.loopvals.setdefault(s, set()).add(v)
                return [st]
            return self.enter(st, fr, bb)
        fr.bb = bb
        return [st]

    def listed(self, st, fr, bb):
        """does the loop walk a few items that were written out?  Its trips are then followed one by one"""
        t = fr.body["blocks"][bb]["t"]
        if t[0] != "call" or t[1]["k"] == "ptr" or not re.search(r"^<std::array::IntoIter<.*> as std::iter::Iterator>::next$", Program.norm(t[1]["path"])):
            return False
        cur = st.copy()
        cf = cur.frames[-1]
        for s in fr.body["blocks"][bb]["s"]:
            self.statement(cur, cf, s)
        v = self.operand(cur, cf, t[2][0])
        it = self.read(cur, v[1]) if v[0] == "ref" else ("?",)
        return it[0] == "ag" and it[1] == "$arr" and len(field(it, "of")[3]) <= 4 and is_i(field(it, "pos"))

    def enter(self, st, fr, bb):
        """Fixed point at a loop head."""
        if self.listed(st, fr, bb):
            fr.bb = bb
            return [st]
        loops = loops_of(fr.body)
        blocks = loops[bb]
        depth = len(st.frames)
        fid = fr.fid
        written = set()
        lid = next(self.fresh_n)
        live_fids = {f.fid for f in st.frames}
        for _round in range(6):
            cur = st.copy()
            cf = cur.frames[-1]
            syms = {}
            for loc in sorted(written, key=repr):
                cut = next((k for k, s in enumerate(loc[1]) if s[0] == "i"), None)
                hint = "loop"
                if loc[0][0] == "L" and not loc[1]:
                    hint = cf.body["locals"][loc[0][2]][1] if loc[0][1] == fid and cf.body["locals"][loc[0][2]][1] else "loop"
                elif loc[1] and loc[1][-1][0] == "f":
                    hint = loc[1][-1][1]
                init = self.read(st, loc) if cut is None else None
                self.havoc_loc(cur, loc, hint)
                if cut is None:
                    sy = self.read(cur, loc)
                    syms[loc] = sy
                    self.loopvals[sy] = {init}
            cf.active = dict(cf.active)
            cf.active[bb] = lid
            self.loopinfo[lid] = {"syms": syms, "fn": fr.body["path"], "bb": bb}
            cf.bb = bb
            cur.wr = set()
            probe = cur.copy()

            def stop(s2, f2, target, fid=fid, depth=depth):
                if f2.fid == fid and len(s2.frames) == depth:
                    if target == bb:
                        return "back"
                    if target not in blocks:
                        return "left"
                return None
            res = self.explore([probe], stop)
            new = set()
            for r in res:
                if r.exit.k != "back":
                    continue
                for loc in r.wr:
                    root = loc[0]
                    if root[0] == "L" and root[1] not in live_fids:
                        continue
                    if root[0] == "T" and (root, ()) not in st.mem:
                        continue
                    if root[0] == "P" and not self.term_known(root[1], lid):
                        continue
                    cut = next((k for k, s in enumerate(loc[1]) if s[0] == "i"), None)
                    if cut is not None:
                        loc = (root, loc[1][:cut] + (("i", ("any",)),))
                    new.add(loc)
            new = self.minimal(new | written)
            if new == written:
                cur.ev.append(Ev("loop", id=lid, init={s: self.read(st, l) for l, s in syms.items()}, site=fr.body["path"]))
                cur.wr = set(st.wr) | written
                return [cur]
            written = new
        raise AnalysisError("loop in %s does not stabilise" % fr.body["path"])

    def term_known(self, t, floor):
        """Is t built only from values that exist before the loop trip?  (pointers
        obtained inside the trip are per-trip and need no summary)"""
        return all(x[1] < floor for x in atoms(t) if x[0] == "s")

    @staticmethod
    def minimal(locs):
        """Drop places contained in other places of the set."""
        out = set()
        for (r, p) in locs:
            if not any((r, p[:k]) in locs for k in range(len(p))):
                out.add((r, p))
        return out

    def do_return(self, st, stop):
        fr = st.frames.pop()
        v = self.read(st, (("L", fr.fid, 0), ()))
        if fr.wrap:
            v = fr.wrap(st, v)
        if not st.frames:
            st.ret = v
            return self.finish(st, "return", site=fr.body["path"])
        self.drop_locals(st, fr.fid)
        self.write(st, fr.dst, v, fr.site)
        if fr.ret_bb < 0:
            return []
        return self.jump(st, fr.ret_bb, stop)

    def drop_locals(self, st, fid):
        # locals of a finished frame stay readable only through returned references
        pass

    def do_drop(self, st, loc, ti, site):
        t = self.p.types[ti]
        if not t.get("drop"):
            return
        v = self.read(st, loc)
        self.drop_value(st, v, t, site)

    def drop_value(self, st, v, t, site):
        # Option / Result of something: which variant?
        if v[0] == "guard":
            st.ev.append(Ev("unlock", loc=v[1], n=v[2], site=site))
            return
        if v[0] == "ag" and v[1] in ("std::option::Option", "std::result::Result", "std::task::Poll"):
            for _, x in v[3]:
                self.drop_value(st, x, self.payload_type(t, v[2]), site)
            return
        if t.get("k") == "adt" and t["path"] == "std::option::Option":
            d = st.f.const(("disc", v))
            if d == 0:
                return
        st.ev.append(Ev("drop", ty=t.get("s", "?"), val=v, site=site))

    def payload_type(self, t, variant):
        if t.get("k") == "adt":
            for x in t["vs"]:
                if x["n"] == variant and x["f"] and x["f"][0][1] >= 0:
                    return self.p.types[x["f"][0][1]]
        return {"s": "?", "k": "?"}

    # ---- calls
    def call(self, st, fr, t, stop):
        _, callee, argops, dst, target, site = t
        args = [self.operand(st, fr, a) for a in argops]
        tys = [self.opty(fr, a) for a in argops]
        if callee["k"] == "ptr":
            f = self.operand(st, fr, callee["op"])
            return self.opaque_call(st, fr, {"path": "<pointer>", "decl": "<pointer>", "trait": None, "targs": [], "local": False}, args, tys, dst, target, site, stop)
        path = Program.norm(callee["path"])
        decl = Program.norm(callee["decl"])
        from natives import native
        r = native(self, st, fr, callee, path, decl, args, tys, dst, site)
        if r is not None:
            out = []
            dloc = None
            for s2, v in r:
                if v == "panic":
                    s2.ev.append(Ev("panic", why=path, site=site))
                    out += self.finish(s2, "panic", why=path, site=site, callee=path)
                    continue
                if target < 0:
                    continue
                f2 = s2.frames[-1]
                self.write(s2, self.place(s2, f2, dst), v, site)
                out += self.jump(s2, target, stop)
            return out
        if callee["inst"] >= 0 and callee["inst"] in self.p.bodies:
            b = self.p.bodies[callee["inst"]]
            if not any(rx.search(path) for rx in self.opaque) and not self.recursive(st, b) and len(st.frames) < self.max_inline:
                return self.inline(st, fr, b, callee, args, dst, target, site)
        return self.opaque_call(st, fr, callee, args, tys, dst, target, site, stop)

    def recursive(self, st, b):
        return sum(1 for f in st.frames if f.body["id"] == b["id"]) >= 1

    def inline(self, st, fr, b, callee, args, dst, target, site):
        if callee.get("abi") == "rust-call" and not b["shim"] and b["closure"] and len(args) == 2 and b["spread"] < 0:
            tup = args[1]
            n = b["argc"] - 1
            args = [args[0]] + [field(tup, str(i)) for i in range(n)]
        elif callee.get("abi") == "rust-call" and b["shim"] and b["argc"] != len(args):
            tup = args[1]
            args = [args[0]] + [field(tup, str(i)) for i in range(b["argc"] - 1)]
        elif callee.get("abi") == "rust-call" and not b["closure"] and not b["shim"] and b["argc"] != len(args):
            tup = args[1]
            args = [args[0]] + [field(tup, str(i)) for i in range(b["argc"] - 1)]
        fid = next(self.fid_n)
        nf = Frame(b, fid, self.place(st, fr, dst), target, site)
        self.visited.add(b["id"])
        # closure called by value although its body takes its captures by reference (or the reverse)
        if b["closure"] and args:
            want_ref = self.p.types[b["locals"][1][0]].get("k") in ("ref", "ptr")
            if want_ref and args[0][0] == "ag":
                n = next(self.fresh_n)
                st.mem[(("T", n), ())] = args[0]
                args = [("ref", (("T", n), ()))] + list(args[1:])
            elif not want_ref and args[0][0] == "ref":
                args = [self.read(st, args[0][1])] + list(args[1:])
        for i, v in enumerate(args):
            st.mem[(("L", fid, i + 1), ())] = v
        st.frames.append(nf)
        if b["local"]:
            st.ev.append(Ev("enter", path=Program.norm(b["path"]), args=list(args), site=site))
        if 0 in loops_of(b):
            return self.enter(st, nf, 0)
        return [st]

    def havoc_arg(self, st, v, ti, seen=0):
        """Whatever is reachable by unique reference from an argument may change."""
        if ti is None or ti < 0 or seen > 4:
            return
        t = self.p.types[ti]
        k = t.get("k")
        if k == "ref" and t["mut"] or k == "ptr" and t["mut"]:
            if v[0] == "slice":
                return self.havoc_loc(st, (v[1][0], v[1][1] + (("i", ("any",)),)), "hv")
            if v[0] in ("ref", "s", "f", "app"):
                loc = self.deref(st, v)
                inner = t.get("t")
                it = self.p.types[inner] if inner is not None else {}
                if it.get("s", "").startswith("std::task::Context"):
                    return
                # a &mut to a struct of references: follow
                self.havoc_loc(st, loc, "hv", inner)
        elif k == "tuple":
            for i, x in enumerate(t["ts"]):
                self.havoc_arg(st, field(v, str(i)), x, seen + 1)
        elif k == "closure":
            for i, x in enumerate(t["ups"]):
                self.havoc_arg(st, field(v, str(i)), x, seen + 1)
        elif k == "adt" and t["path"] == "std::pin::Pin":
            for a in t["args"][:1]:
                at = self.p.types[a]
                if at.get("k") == "ref":
                    self.havoc_arg(st, v, a, seen + 1)
        elif k == "adt" and t["path"] in ("std::option::Option",):
            if v[0] == "ag" and v[2] == "Some":
                self.havoc_arg(st, field(v, "Some.0"), t["args"][0], seen + 1)

    def opaque_call(self, st, fr, callee, args, tys, dst, target, site, stop, effects=True):
        path = Program.norm(callee["path"])
        vals = []
        for v, ti in zip(args, tys):
            t = self.p.types[ti] if ti is not None and ti >= 0 else {}
            if t.get("k") == "ref" and v[0] in ("ref", "s", "f", "app", "guard"):
                vals.append(self.read(st, self.deref(st, v)))
            else:
                vals.append(v)
        for v, ti in zip(args, tys):
            self.havoc_arg(st, v, ti)
        dt = self.p.types[dst["t"]]
        if dt.get("k") == "tuple" and not dt["ts"]:
            r = UNIT
        else:
            short = path.rsplit("::", 1)[-1].strip("<>")
            r = self.fresh(short, dst["t"])
        ev = Ev("call", path=path, decl=Program.norm(callee["decl"]), args=list(args), vals=vals, ret=r, site=site, fn=Program.norm(fr.body["path"]), tys=tys,
                targs=[self.p.tname(x) for x in callee.get("targs", [])], own=bool(callee.get("local")))
        st.ev.append(ev)
        self.sites.add(site)
        if target < 0:
            st.ev.append(Ev("panic", why=path, site=site))
            return self.finish(st, "panic", why=path, site=site, callee=path)
        self.write(st, self.place(st, st.frames[-1], dst), r, site)
        return self.jump(st, target, stop)
