"""Loading of the MIR dump: bodies, ADTs, impls, CFG helpers (dominators, natural loops)."""
import json, re
from functools import lru_cache


class Body:
    __slots__ = ("name", "j", "blocks", "locals", "nargs", "_succ", "_dom", "_loops", "file", "line", "kind", "_pred")

    def __init__(self, j):
        self.j = j
        self.name = j["name"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self.nargs = j["nargs"]
        self.file = j["file"]
        self.line = j["line"]
        self.kind = j["kind"]
        self._succ = self._dom = self._loops = self._pred = None

    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(x["t"]) for x in self.blocks]
        return self._succ[b]

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for i in self.reachable():
                for s in self.succ(i):
                    p[s].append(i)
            self._pred = p
        return self._pred

    def reachable(self):
        seen, w = {0}, [0]
        while w:
            b = w.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    w.append(s)
        return seen

    def doms(self):
        """immediate-free dominator sets (bit sets)"""
        if self._dom is None:
            order, seen = [], set()

            st = [(0, iter(self.succ(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            pred = {b: [] for b in order}
            for b in order:
                for s in self.succ(b):
                    pred[s].append(b)
            full = 0
            for b in order:
                full |= 1 << b
            dom = {b: full for b in order}
            dom[0] = 1
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    d = full
                    for p in pred[b]:
                        d &= dom[p]
                    d |= 1 << b
                    if d != dom[b]:
                        dom[b] = d
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        return bool(self.doms().get(b, 0) >> a & 1)

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is None:
            dom = self.doms()
            L = {}
            preds = self.preds()
            for b in dom:
                for s in self.succ(b):
                    if dom[b] >> s & 1:
                        body = L.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x in body:
                                continue
                            body.add(x)
                            w.extend(p for p in preds[x] if p in dom)
            self._loops = L
        return self._loops

    def calls(self):
        for i, b in enumerate(self.blocks):
            if b["cu"]:
                continue
            t = b["t"]
            if t[0] == "call":
                yield i, t

    def where(self, line=None):
        return f"{self.file}:{line or self.line} in {self.name}"


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = {}
        for j in d["bodies"]:
            n = j["name"]
            if n in self.bodies:
                k = 1
                while f"{n}#{k}" in self.bodies:
                    k += 1
                j["name"] = n = f"{n}#{k}"
            self.bodies[n] = Body(j)
        self.adts = {a["name"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.callers_ = None

    def __getitem__(self, n):
        return self.bodies[n]

    def get(self, n):
        return self.bodies.get(n)

    def find(self, rx, kind=None):
        r = re.compile(rx)
        return [b for n, b in self.bodies.items() if r.search(n) and (kind is None or b.kind in kind)]

    def fns(self):
        return [b for b in self.bodies.values() if b.kind in ("Fn", "AssocFn", "Closure")]

    def adt(self, short):
        """ADT by last path segment"""
        r = [a for n, a in self.adts.items() if n.split("::")[-1] == short]
        return r[0] if r else None


def callee(t):
    """resolved callee name of a call terminator or None"""
    f = t[1]
    if f[0] == "k" and "fnref" in f[1]:
        r = f[1]["fnref"]
        return r.get("res", r["fn"])
    return None


def callee_ref(t):
    f = t[1]
    if f[0] == "k" and "fnref" in f[1]:
        return f[1]["fnref"]
    return None
