"""Integer arithmetic on extracted index terms: closed forms of loop counters, evaluated for given sizes.
(Index progressions extracted from the code are quasi-affine in the sizes; checking all sizes up to a few
multiples of the chunk width decides the equality of the index sets.)"""
from sx import *
import sx


class Unknown(Exception):
    pass


def ev(t, env):
    """integer / boolean value of a term under env (term -> int)"""
    if t in env:
        v = env[t]
        return v
    k = t[0]
    if k == "i":
        return t[1]
    if k == "b":
        return t[1]
    if k == "lin":
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if k == "has":
        return ev(t[2], env) < ev(t[1], env)
    if k == "app" and t[1].endswith("From<bool>>::from") and len(t) == 3:
        return int(ev(t[2], env))
    if k == "op":
        o = t[1]
        if o in ("lt", "le", "eq"):
            a, b = ev(t[2], env), ev(t[3], env)
            return a < b if o == "lt" else a <= b if o == "le" else a == b
        if o == "iDiv":
            a, b = ev(t[2], env), ev(t[3], env)
            if b == 0:
                raise Unknown(t)
            return a // b
        if o in ("iRem", "iMod"):
            a, b = ev(t[2], env), ev(t[3], env)
            if b == 0:
                raise Unknown(t)
            return a % b
        if o in ("iMul", "imul", "Mul"):
            return ev(t[2], env) * ev(t[3], env)
        if o in ("imin", "iMin", "min"):
            return min(ev(t[2], env), ev(t[3], env))
        if o in ("imax", "iMax", "max"):
            return max(ev(t[2], env), ev(t[3], env))
        if o in ("satsub", "isatsub"):
            return max(0, ev(t[2], env) - ev(t[3], env))
        if o == "not":
            return not ev(t[2], env)
        if o in ("and", "iBitAnd"):
            return ev(t[2], env) & ev(t[3], env)
    raise Unknown(t)


def ev_lam(lam, env):
    """value of a closure term (list of conditional results) under env"""
    for conds, val in lam[3]:
        ok = True
        for a, v in conds:
            r = ev(a, env)
            if isinstance(v, tuple):
                if r in v[1]:
                    ok = False
            elif r != v:
                ok = False
        if ok:
            return ev(val, env)
    raise Unknown(lam)


def holds(pc, env):
    """False if some atom of pc is decided to be violated under env, True if all decided, None otherwise"""
    r = True
    for a, v in pc.items():
        try:
            x = ev(a, env)
        except Unknown:
            r = None if r else r
            continue
        if bool(x) != bool(v):
            return False
    return r


class Loop:
    def __init__(self, it, body, header, entry, backs, exits, tag):
        self.tag, self.body, self.header = tag, body, header
        self.entry, self.backs, self.exits = entry, backs, exits
        st0, cur, inits = it.last_loop
        self.st0 = st0
        self.phis = {}
        for r, v in cur.items():
            i = st0.mem.get(r)
            if v[0] == "phi":
                self.phis[v] = ("val", r, i)
            elif v[0] == "iter" and v[2][0] == "phi":
                self.phis[v[2]] = ("iter", r, i[2] if i and i[0] == "iter" else None)

    def init(self, env):
        vals = {}
        for p, (k, r, i) in self.phis.items():
            if i is None:
                continue
            try:
                vals[p] = ev(i, env)
            except Unknown:
                pass
        return vals

    def step(self, o, vals, env):
        e = {**env, **vals}
        out = {}
        for p, (k, r, i) in self.phis.items():
            if p not in vals:
                continue
            v = o.st.mem.get(r)
            if k == "iter":
                v = v[2] if v and v[0] == "iter" else None
            if v is None:
                continue
            try:
                out[p] = ev(v, e)
            except Unknown:
                pass
        return out

    def new_pc(self, o):
        return {a: v for a, v in o.st.pc.items() if self.st0.pc.get(a) != v}

    def simulate(self, env, limit=4000):
        """yield (counter environment, back outcomes possible in this iteration)"""
        vals = self.init(env)
        for _ in range(limit):
            e = {**env, **vals}
            poss = [o for o in self.backs if holds(self.new_pc(o), e) is not False]
            if not poss:
                return
            yield e, poss
            nx = [self.step(o, vals, env) for o in poss]
            merged = {p: v for p, v in nx[0].items() if all(n.get(p) == v for n in nx)}
            if merged == vals:
                raise Unknown("loop without progress")
            vals = merged
        raise Unknown("loop bound")
