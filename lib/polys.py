"""Contracts of the polynomial type: the methods as operations on (base, {power: coefficient}), so that code which calls them is
analysed against what they must compute, and each method is analysed on its own against the same operation."""
from sx import *
import den, trees
from den import Und, Unk, mpf
from trees import TreeVal, Miss
from tmpl import POLY, V

REL = mpf(10) ** -13


class Endless(Unk):
    """a loop that is still running after far more iterations than the degrees allow"""


# ---- reference operations on ("poly", base, ((power, coefficient)..))
def mk(base, d):
    return ("poly", base, tuple(sorted((p, c) for p, c in d.items() if c != 0)))


def cs(p):
    return dict(p[2])


def is_const(p):
    return all(k == 0 for k, _ in p[2])


def add_to(d, k, c):
    a = d.get(k, mpf(0))
    s = a + c
    if abs(s) <= REL * max(abs(a), abs(c)):
        d.pop(k, None)
    else:
        d[k] = s


def r_add(p, q):
    if is_const(p) and not is_const(q):
        p, q = q, p
    d = cs(p)
    for k, c in q[2]:
        add_to(d, k, c)
    return mk(p[1], d)


def r_scale(p, c):
    return mk(p[1], {k: x * c for k, x in p[2]})


def r_mul(p, q):
    d = {}
    for a, x in p[2]:
        for b, y in q[2]:
            add_to(d, a + b, x * y)
    return mk(p[1] if not is_const(p) else q[1], d)


def r_deriv(p):
    return mk(p[1], {k - 1: k * c for k, c in p[2] if k})


def deg(p):
    return max((k for k, _ in p[2]), default=0)


def lead(p):
    return cs(p)[deg(p)] if p[2] else mpf(0)


def r_divrem(p, q):
    if not q[2]:
        return None
    r, u = cs(p), {}
    n, l = deg(q), lead(q)
    while r and max(r) >= n:
        k = max(r)
        f = r[k] / l
        u[k - n] = f
        for j, c in q[2]:
            add_to(r, j + k - n, -f * c)
        r.pop(k, None)
    return mk(p[1], u), mk(p[1], r)


def compat(p, q):
    return is_const(p) or is_const(q) or p[1] == q[1]


def one_term(base, k, c):
    return mk(base, {int(k): mpf(c)})


# name -> (number of arguments, result sort, operation)
OPS = {
    "zero": ("poly", lambda b: mk(b, {})), "constant": ("poly", lambda c: mk(("num", 1.0), {0: mpf(c)})),
    "from_base": ("poly", lambda b: mk(b, {1: mpf(1)})), "term": ("poly", one_term),
    "base": ("expr", lambda p: p[1]), "base_arc": ("expr", lambda p: p[1]), "with_base": ("poly", lambda p, b: ("poly", b, p[2])),
    "is_zero": ("bool", lambda p: not p[2]), "is_constant": ("bool", is_const),
    "as_constant": ("optf", lambda p: cs(p).get(0, mpf(0)) if is_const(p) else None),
    "degree": ("num", lambda p: mpf(deg(p))), "term_count": ("num", lambda p: mpf(len(p[2]))),
    "coeff": ("num", lambda p, k: cs(p).get(int(k), mpf(0))), "leading_coeff": ("num", lead),
    "first_coeff": ("optf", lambda p: p[2][0][1] if p[2] else None),
    "with_negated_first": ("poly", lambda p: mk(p[1], {k: -c if i == 0 else c for i, (k, c) in enumerate(p[2])})),
    "add": ("poly", r_add), "sub": ("poly", lambda p, q: r_add(p, r_scale(q, -1))), "negate": ("poly", lambda p: r_scale(p, -1)),
    "mul": ("poly", r_mul), "scale": ("poly", r_scale), "derivative": ("poly", r_deriv),
    "make_monic": ("poly", lambda p: r_scale(p, 1 / lead(p)) if p[2] else p), "div_rem": ("optpair", r_divrem),
}
def r_term(p, k, c):
    d = cs(p)
    add_to(d, int(k), mpf(c))
    return mk(p[1], d)


MUT = {"add_term": r_term,
       "set_base": lambda p, b: ("poly", b, p[2])}


def models(prog, skip=()):
    m = {}

    def pure(nm):
        return lambda I_, st, args, r, d, tys: ("app", "P:" + nm) + tuple(I_.deep(st, a) for a in args)

    def place(I_, st, p):
        while True:
            v = I_.load(st, p[1], p[2])
            if v[0] != "ptr":
                return p, v
            p = v

    def mut(nm):
        def f(I_, st, args, r, d, tys):
            if args[0][0] != "ptr":
                return None
            p, v = place(I_, st, args[0])
            I_.store(st, p[1], p[2], ("app", "P:" + nm, I_.deep(st, v)) + tuple(I_.deep(st, a) for a in args[1:]))
            return UNIT
        return f

    def try_add(I_, st, args, r, d, tys):
        if args[0][0] != "ptr":
            return None
        p, v = place(I_, st, args[0])
        v, w = I_.deep(st, v), I_.deep(st, args[1])
        out = []
        for s, b in I_.fork_bool(st, ("app", "P:compat", v, w)):
            if b:
                I_.store(s, p[1], p[2], ("app", "P:add", v, w))
            out.append((s, TRUE if b else FALSE))
        return out
    for n in OPS:
        if n not in skip:
            m[f"{POLY}::{n}"] = pure(n)
    for n in MUT:
        if n not in skip:
            m[f"{POLY}::{n}"] = mut(n)
    if "try_add_assign" not in skip:
        m[f"{POLY}::try_add_assign"] = try_add
    if "poly" not in skip:
        m[f"{den.EXPR}::poly"] = lambda I_, st, args, r, d, tys: ("app", "E:poly", I_.deep(st, args[0]))
    return m


class PVal(TreeVal):
    """valuation that also understands polynomials and loop summaries over them"""

    def pargs(self, t):
        r = []
        for a in t[2:]:
            try:
                r.append(self.res(a))
            except Unk:
                r.append(self.f(a))
        return r

    def pop(self, t):
        nm = t[1][2:]
        f = OPS[nm][1] if nm in OPS else MUT.get(nm)
        if nm == "compat":
            f = compat
        if f is None:
            raise Unk(nm)
        try:
            return f(*self.pargs(t))
        except (TypeError, IndexError, KeyError):
            raise Unk(f"arguments of {nm}")

    @staticmethod
    def isp(t):
        return t[0] == "app" and isinstance(t[1], str) and t[1].startswith("P:")

    def poly(self, t):
        p = self.res(t)
        if not (isinstance(p, tuple) and p and p[0] == "poly"):
            raise Unk("polynomial")
        return p

    def _res(self, t):
        if t in self.bind:
            return self.bind[t]
        if t[0] == "loop" and len(t) == 5 and isinstance(t[1], int):
            return self.loopv(t)
        if t[0] == "tup":
            return tuple(self.any_value(x) for x in t[1])
        if t[0] == "adt" and t[1] == POLY:
            f = dict(zip(t[3], t[4]))
            ts = self.res(f["terms"])
            return ("poly", self.res(f["base"]), tuple((int(p), mpf(q)) for p, q in ts))
        if self.isp(t):
            r = self.pop(t)
            if isinstance(r, bool) or r is None:
                raise Unk("polynomial operation")
            return r
        if t[0] == "app" and t[1] == "E:poly":
            p = self.poly(t[2])
            return ("num", 0.0) if not p[2] else ("num", float(p[2][0][1])) if len(p[2]) == 1 and p[2][0][0] == 0 else p
        if t[0] == "fld" and t[2] in ("Some",) and t[3] == "0" and self.isp(t[1]):
            r = self.pop(t[1])
            if r is None:
                raise Miss()
            return r
        if t[0] == "fld" and t[2] == "" and t[3] in ("0", "1"):
            x = self.res(t[1])
            if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], str):
                return x[int(t[3])]
        return super()._res(t)

    def loopv(self, t, bound=60):
        lv, conts, upd = t[1], t[3], t[4]

        def val(v, x):
            return None if x == ("none",) else v.any_value(x)
        cur = [val(self, x) for x in t[2]]
        for _ in range(bound):
            v = self.scoped({("bv", lv, i): x for i, x in enumerate(cur)})
            if not any(v.pc_holds(dict(c)) for c in conts):
                return cur[0]
            nxt = []
            for cases in upd:
                for c, x in cases:
                    if v.pc_holds(dict(c)):
                        nxt.append(val(v, x))
                        break
                else:
                    raise Unk("loop step")
            cur = nxt
        raise Endless("loop bound")

    def variant_ok(self, t, want):
        if self.isp(t):
            v = "None" if self.pop(t) is None else "Some"
            return v == want if isinstance(want, str) else v not in want[1]
        return super().variant_ok(t, want)

    def cond(self, t):
        if self.isp(t):
            r = self.pop(t)
            if isinstance(r, bool):
                return r
            raise Unk("condition")
        if t[0] == "op" and t[1] == "ptr_eq":
            return self.same(t[2], t[3])
        return super().cond(t)

    def same(self, a, b):
        """identity of handles: equal values may or may not be shared"""
        x, y = self.res(a), self.res(b)
        if x != y:
            return False
        raise Unk("identity")

    def pc_holds(self, pc, skip=None):
        free = {}
        for a, x in pc.items():
            if a[0] == "op" and a[1] == "ptr_eq":
                try:
                    if self.res(a[2]) != self.res(a[3]) and x:
                        return False
                except Miss:
                    return False
                except Unk:
                    free[a] = x
                continue
            free[a] = x
        return super().pc_holds(free, skip)

    def _f(self, t):
        if self.isp(t):
            r = self.pop(t)
            if isinstance(r, mpf):
                return r
            raise Unk("number")
        if t[0] == "fld" and t[2] == "Some" and self.isp(t[1]):
            r = self.pop(t[1])
            if r is None:
                raise Unk("absent")
            if isinstance(r, mpf):
                return r
        if t[0] == "loop" and len(t) == 5 and isinstance(t[1], int):
            r = self.loopv(t)
            if isinstance(r, mpf):
                return r
            raise Unk("loop value")
        return super()._f(t)

    def _e(self, t):
        if t[0] == "app" and t[1] == "E:poly":
            return self.node_value(self.res(t))
        return super()._e(t)


# ---- expressions in which like terms, powers of one base and literals are frequent
def pool(rng, depth=2, lits=(2.0, 3.0, -1.0, 0.5, -2.0, 1.0, 0.0, 4.0, 1e-9, 1e-20, 1.5)):
    x = ("sym", "x")
    base = rng.choice([x, x, x, ("sym", "y"), ("fn", "sin", (x,)), ("sum", (("num", 1.0), x)), ("fn", "exp", (("sym", "y"),))])
    r = rng.random()
    num = lambda: ("num", rng.choice(lits))
    if r < 0.18:
        return num()
    if r < 0.36:
        return base
    if r < 0.52:
        return ("pow", base, ("num", rng.choice((2.0, 3.0, 2.0, 3.0, 0.5, -1.0, 1.0, 0.0, 2.5) + ((5e9, 6e9) if depth > 1 else ()))))
    if r < 0.6:
        return ("prod", (("num", rng.choice((2.0, -1.0, 3.0, 0.5, 1e-9, -2.0))), base))
    if r < 0.68:
        return ("prod", (("num", rng.choice((2.0, -1.0, 3.0))), ("pow", base, ("num", rng.choice((2.0, 3.0))))))
    if r < 0.78:
        return ("poly", base, rng.choice((((0, 1.0), (1, 2.0)), ((1, -2.0), (2, 1.0)), ((0, -1.0), (2, 3.0)), ((1, 1.0),), ((0, 2.0), (1, -2.0), (3, 1e-9)))))
    if depth <= 0:
        return ("sym", "y")
    if r < 0.84:
        return ("sum", (pool(rng, depth - 1), pool(rng, depth - 1)))
    if r < 0.9:
        return ("prod", (pool(rng, depth - 1), pool(rng, depth - 1)))
    if r < 0.95:
        return ("div", pool(rng, depth - 1), pool(rng, depth - 1))
    return ("pow", base, pool(rng, depth - 1))
