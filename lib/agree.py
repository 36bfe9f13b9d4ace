"""Common vocabulary for the effects of all executors: ('kc',i) i-th constant, ('pa',p) p-th parameter at the
point being evaluated.  Parameters of executors that are called per instruction get their meaning from the
arguments at their call sites."""
from sx import *
import sx, vm, execs, alg
from mir import callee
from models import v0


def callers(prog, name):
    return [b for b in prog.fns() if any(callee(t) == name for _, t in b.calls())]


def record_calls(prog, caller, names, **kw):
    """interpret `caller` with the calls to `names` recorded: -> (Interp, outs, [(callee, deep args, pc)])"""
    rec = []

    def mk(nm):
        def m(I_, st, args, r, d, tys):
            vals = [I_.deep(st, a) for a in args]
            rec.append((nm, vals, dict(st.pc)))
            for i, a in enumerate(args):
                I_.havoc_mut(st, a, ("app", f"out{i}:{nm}") + tuple(vals))
            return UNIT
        return m
    it = Interp(prog, opaque=execs.numeric_leaf(prog), models={n: mk(n) for n in names}, max_outs=20000, max_steps=3000000)
    st = State()
    args0 = execs.mkargs(st, caller)
    outs = it.run(st, caller, args0)
    return it, outs, rec


def sub_bv(t, v, rng=1001):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "bv" and len(t) == 3 and t[1] >= 1000:
        return v
    return tuple(sub_bv(x, v) for x in t)


def beta(t, i):
    """element i of an array-valued term"""
    if t[0] == "hof" and t[1] in ("collect", "arr") and t[2][0] == "map" and t[2][2][0] == "lam":
        lam = t[2][2]
        bodies = lam[3]
        if len(bodies) == 1 and not bodies[0][0]:
            return sub_bv(bodies[0][1], beta(t[2][1], i))
    return ("idx", t, i)


class Unified:
    """effects of one executor in the common vocabulary"""
    def __init__(self, e):
        self.e = e
        self.name = e.name
        self.bad = []
        self.effects = {}   # variant -> [(conds, delta, writes, cwrites, problem)]
        self.wide = e.wide


def unify(prog, ex):
    res = []
    site_cache = {}
    for e in ex:
        u = Unified(e)
        sub = {}
        if e.kind == "fn":
            cs = callers(prog, e.name)
            recs = []
            for c in cs:
                names = tuple(sorted(x.name for x in ex if x.kind == "fn"))
                if (c.name, names) not in site_cache:
                    site_cache[(c.name, names)] = record_calls(prog, c, names)
                recs += [(c, r) for r in site_cache[(c.name, names)][2] if r[0] == e.name]
            u.sites = recs
            skip = set()
            hl = e.Hloc[1]
            for i in range(1, e.body.nargs + 1):
                root = ("H", f"arg{i}")
                if root in (e.S, e.C, hl):
                    skip.add(i)
            for i in range(1, e.body.nargs + 1):
                if i in skip:
                    continue
                vals = []
                for c, r in recs:
                    v = r[1][i - 1]
                    if v not in vals:
                        vals.append(v)
                if not vals:
                    continue
                ints = [v for v in vals if v[0] in ("i", "lin", "phi", "iDiv") or v[0] == "op"]
                if e.body.locals[i] == "usize":
                    sub[("var", f"arg{i}")] = ("row",)
                elif len(vals) == 1:
                    sub[("var", f"arg{i}")] = vals[0]
        u.sub = sub
        rn = {}

        def go(x, memo):
            if not isinstance(x, tuple) or not x:
                return x
            k = id(x)
            if k in memo:
                return memo[k][1]
            if x in sub:
                r = sub[x]
            else:
                ys = tuple(go(y, memo) for y in x)
                r = x if ys == x else e.it.renorm(ys)
                if r and r[0] == "idx" and len(r) == 3:
                    a, i = r[1], r[2]
                    if a == ("fld", ("var", "arg1"), "", "constants"):
                        r = ("kc", i)
                    elif a[0] == "hof":
                        b = beta(a, i)
                        r = go(b, memo) if b != r else r
                    elif a == ("var", "arg2") and e.kind == "loop":
                        r = ("pa", i)
                    elif a[0] == "idx" and a[1] == ("var", "arg2"):
                        c, d = lin_parts(i) if i != ("row",) else (0, {("row",): 1})
                        if d == {("row",): 1}:
                            r = ("pa", a[2]) if c == 0 else ("palane", a[2], c)
                elif r and r[0] == "lane" and len(r) == 3:
                    pass
            memo[k] = (x, r)
            return r
        for v, ps in e.effects.items():
            for p in ps:
                memo = {}
                q = vm.Path()
                q.kind = p.kind
                q.delta = p.delta
                q.problem = p.problem
                q.conds = {go(a, memo): x for a, x in p.conds.items()}
                q.writes = {k: go(w, memo) for k, w in p.writes.items()}
                q.cwrites = {go(k, memo): go(w, memo) for k, w in p.cwrites.items()}
                u.effects.setdefault(v, []).append(q)
        res.append(u)
    return res, site_cache


def lane_of(t, k, memo=None):
    """project lane k of a vector-valued term: v4 literals, stack/cache cells are per-lane, ('palane',p,k) is the
    parameter of the k-th point"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple) or not t:
        return t
    key = id(t)
    if key in memo:
        return memo[key][1]
    if t[0] == "v4":
        r = lane_of(t[1][k], k, memo)
    elif t[0] == "lane":
        r = lane_of(t[1], t[2], memo) if t[1][0] == "v4" else (lane_of(t[1], k, memo) if t[2] == k else t)
    elif t[0] == "palane":
        r = ("pa", t[1]) if t[2] == k else t
    elif t[0] == "pa":
        r = t if k == 0 else ("palane0", t[1])
    else:
        ys = tuple(lane_of(y, k, memo) for y in t)
        r = t if all(a is b for a, b in zip(ys, t)) else ys
    memo[key] = (t, r)
    return r
