"""Composition of instruction effects: symbolic stack machine built from the effects extracted from an executor."""
from sx import *
import sx, vm, alg
from ints import Unknown


class M:
    """state of the symbolic machine"""
    __slots__ = ("h", "st", "ca", "conds")

    def __init__(self, h=0, st=None, ca=None, conds=None):
        self.h, self.st, self.ca, self.conds = h, dict(st or {}), dict(ca or {}), dict(conds or {})

    def cell(self, o):
        return self.st.get(o, ("st", o))

    def copy(self):
        return M(self.h, self.st, self.ca, self.conds)


def subst_effect(t, m, payload, renorm):
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        k = id(x)
        if k in memo:
            return memo[k][1]
        if x[0] == "st" and len(x) == 2:
            r = m.cell(m.h + x[1])
        elif x[0] == "arg" and len(x) == 2:
            if x[1] not in payload:
                raise Unknown(("payload", x[1]))
            r = payload[x[1]]
        elif x[0] == "ca" and len(x) == 2:
            s = go(x[1])
            if s in m.ca:
                r = m.ca[s]
            elif m.ca and any(iconst_diff(s, k2) is None for k2 in m.ca):
                raise Unknown("cache alias")
            else:
                r = ("ca", s)
        else:
            ys = tuple(go(y) for y in x)
            r = x if all(a is b for a, b in zip(ys, x)) else renorm(ys)
        memo[k] = (x, r)
        return r
    return go(t)


def step(m, paths, payload, renorm):
    out = []
    for p in paths:
        if p.problem or p.delta is None:
            raise Unknown("effect")
        n = m.copy()
        ok_ = True
        for a, v in p.conds.items():
            if not isinstance(a, tuple):
                continue
            b = subst_effect(a, m, payload, renorm)
            if b[0] == "b":
                if b[1] != v:
                    ok_ = False
                continue
            if n.conds.get(b, v) != v:
                ok_ = False
            n.conds[b] = v
        if not ok_ or not alg.consistent(n.conds):
            continue
        ws = {m.h + o: subst_effect(w, m, payload, renorm) for o, w in p.writes.items()}
        cw = {subst_effect(c, m, payload, renorm): subst_effect(w, m, payload, renorm) for c, w in p.cwrites.items()}
        n.st.update(ws)
        for c, w in cw.items():
            n.ca[c] = w
        n.h = m.h + p.delta
        n.st = {o: w for o, w in n.st.items() if o < n.h}
        out.append(n)
    return out


def run_seq(effects, seq, renorm, start=None, limit=400):
    """seq: [(variant, payload dict)] -> list of final states (one per combination of conditions)"""
    ms = [start or M()]
    for v, payload in seq:
        nxt = []
        for m in ms:
            nxt += step(m, effects[v], payload, renorm)
        if len(nxt) > limit:
            raise Unknown("path limit")
        ms = nxt
    return ms


def equal(N, a, b):
    """True / False / None; text of first difference"""
    if a.h != b.h:
        return False, f"net stack effect {a.h} vs {b.h}"
    und = False
    for o in sorted(set(a.st) | set(b.st), reverse=True):
        if o >= a.h:
            continue
        x, y = a.cell(o), b.cell(o)
        r = N.eq(x, y)
        if r is False:
            return False, f"stack cell {o}: {N.show(x)} vs {N.show(y)}"
        und |= r is None
    for c in set(a.ca) | set(b.ca):
        x, y = a.ca.get(c, ("ca", c)), b.ca.get(c, ("ca", c))
        r = N.eq(x, y)
        if r is False:
            return False, f"cache slot {N.show(c)}: {N.show(x)} vs {N.show(y)}"
        und |= r is None
    return (None if und else True), ""
