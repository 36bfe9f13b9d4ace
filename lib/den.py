"""Mathematical meaning of extracted terms.

Terms of type Expr built by the code (through the expression constructors or as ADT values) and f64 terms are read as
closed-form real functions of their leaves.  `Val` evaluates such a closed form with mpmath at exact sample points, which is
how two extracted closed forms are told apart (an identity test of formulas; nothing of the analysed program is run).
A result of None means "undefined over the reals here"."""
import sys, os, random, itertools, copy
from fractions import Fraction as Q
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
import mpmath
from mpmath import mp, mpf
from sx import *
import sx

mp.dps = 40


class Und(Exception):
    """undefined over the reals at this point"""


class Unk(Exception):
    """the term is not a closed form this module understands"""


# ------------------------------------------------------------------ functions by name
def _real(x):
    if isinstance(x, mpmath.mpc):
        if abs(x.imag) > mpf(10) ** -25 * (1 + abs(x.real)):
            raise Und()
        x = x.real
    if mpmath.isnan(x) or mpmath.isinf(x):
        raise Und()
    return x


def fpow(b, e):
    """powf over the reals"""
    if b == 0:
        if e == 0:
            return mpf(1)
        if e < 0:
            raise Und()
        return mpf(0)
    if b < 0:
        if e != int(e):
            raise Und()
        return _real(mpmath.power(b, int(e)))
    return _real(mpmath.power(b, e))


def flog(b, x):
    if b <= 0 or b == 1 or x <= 0:
        raise Und()
    return mpmath.log(x) / mpmath.log(b)


def dom(c):
    if not c:
        raise Und()


def inv_(x):
    dom(x != 0)
    return 1 / x


def f_ln(x):
    dom(x > 0)
    return mpmath.log(x)


def f_sqrt(x):
    dom(x >= 0)
    return mpmath.sqrt(x)


def f_cbrt(x):
    return mpmath.sign(x) * mpmath.cbrt(abs(x))


def f_asin(x):
    dom(abs(x) <= 1)
    return mpmath.asin(x)


def f_acos(x):
    dom(abs(x) <= 1)
    return mpmath.acos(x)


def f_acosh(x):
    dom(x >= 1)
    return _real(mpmath.acosh(x))


def f_atanh(x):
    dom(abs(x) < 1)
    return mpmath.atanh(x)


def f_gamma(x):
    dom(not (x <= 0 and x == int(x)))
    return mpmath.gamma(x)


def f_polygamma(n, x):
    dom(n == int(n) and n >= 0)
    dom(not (x <= 0 and x == int(x)))
    return _real(mpmath.polygamma(int(n), x))


def _ord(n):
    dom(n == int(n))
    return int(n)


def f_bessely(n, x):
    dom(x > 0)
    return _real(mpmath.bessely(_ord(n), x))


def f_besselk(n, x):
    dom(x > 0)
    return _real(mpmath.besselk(_ord(n), x))


def f_assoc(l, m, x):
    l, m = _ord(l), _ord(m)
    dom(abs(x) <= 1 and l >= 0 and abs(m) <= l)
    # P_l^m by the closed form of the derivative of (x^2-1)^l
    am = abs(m)
    r = mpmath.mpf(0)
    p = mpmath.legendre  # polynomial of degree l
    c = mpmath.taylor(lambda t: p(l, t), 0, l)[: l + 1]
    # am-th derivative at x
    for k in range(am, l + 1):
        r += c[k] * mpmath.ff(k, am) * x ** (k - am)
    r *= (-1) ** am * (1 - x * x) ** (mpf(am) / 2)
    return r        # orders of either sign mean |m| in this crate


def f_ynm(l, m, th, ph):
    l, m = _ord(l), _ord(m)
    dom(l >= 0 and abs(m) <= l)
    k = mpmath.sqrt(mpf(2 * l + 1) / (4 * mpmath.pi) * mpmath.factorial(l - abs(m)) / mpmath.factorial(l + abs(m)))
    return k * f_assoc(l, m, mpmath.cos(th)) * mpmath.cos(m * ph)


def f_zeta(s):
    dom(s != 1)
    return _real(mpmath.zeta(s))


def f_zetad(n, s):
    n = _ord(n)
    dom(n >= 0 and s != 1)
    return _real(mpmath.zeta(s, 1, n)) if n else f_zeta(s)


def f_lambertw(x):
    dom(x >= -1 / mpmath.e)
    return _real(mpmath.lambertw(x))


def f_ellk(k):
    dom(abs(k) < 1)
    return _real(mpmath.ellipk(k * k))


def f_elle(k):
    dom(abs(k) <= 1)
    return _real(mpmath.ellipe(k * k))


def f_beta(a, b):
    return f_gamma(a) * f_gamma(b) / f_gamma(a + b)


def f_hermite(n, x):
    n = _ord(n)
    dom(n >= 0)
    return _real(mpmath.hermite(n, x))


def f_round(x):
    f = mpmath.floor(abs(x) + mpf(1) / 2)
    return mpmath.sign(x) * f


def f_acot(x):
    """branch with range (0, pi)"""
    return mpmath.pi / 2 - mpmath.atan(x)


FN = {
    "sin": mpmath.sin, "cos": mpmath.cos,
    "tan": lambda x: mpmath.sin(x) * inv_(mpmath.cos(x)), "cot": lambda x: mpmath.cos(x) * inv_(mpmath.sin(x)),
    "sec": lambda x: inv_(mpmath.cos(x)), "csc": lambda x: inv_(mpmath.sin(x)),
    "asin": f_asin, "acos": f_acos, "atan": mpmath.atan, "acot": f_acot,
    "asec": lambda x: f_acos(inv_(x)), "acsc": lambda x: f_asin(inv_(x)),
    "atan2": lambda y, x: (dom(not (x == 0 and y == 0)), mpmath.atan2(y, x))[1],
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh, "coth": lambda x: mpmath.cosh(x) * inv_(mpmath.sinh(x)),
    "sech": lambda x: 1 / mpmath.cosh(x), "csch": lambda x: inv_(mpmath.sinh(x)),
    "asinh": mpmath.asinh, "acosh": f_acosh, "atanh": f_atanh, "acoth": lambda x: f_atanh(inv_(x)),
    "asech": lambda x: f_acosh(inv_(x)), "acsch": lambda x: mpmath.asinh(inv_(x)),
    "exp": mpmath.exp, "ln": f_ln, "log": flog, "log10": lambda x: f_ln(x) / mpmath.log(10), "log2": lambda x: f_ln(x) / mpmath.log(2),
    "sqrt": f_sqrt, "cbrt": f_cbrt, "abs": abs, "signum": mpmath.sign, "sign": mpmath.sign, "sgn": mpmath.sign,
    "floor": mpmath.floor, "ceil": mpmath.ceil, "round": f_round,
    "erf": mpmath.erf, "erfc": mpmath.erfc, "gamma": f_gamma, "digamma": lambda x: f_polygamma(0, x),
    "trigamma": lambda x: f_polygamma(1, x), "tetragamma": lambda x: f_polygamma(2, x), "polygamma": f_polygamma,
    "beta": f_beta, "besselj": lambda n, x: _real(mpmath.besselj(_ord(n), x)), "bessely": f_bessely,
    "besseli": lambda n, x: _real(mpmath.besseli(_ord(n), x)), "besselk": f_besselk,
    "sinc": lambda x: mpmath.sin(x) / x if x else mpf(1), "lambertw": f_lambertw, "elliptic_k": f_ellk, "elliptic_e": f_elle,
    "zeta": f_zeta, "zeta_deriv": f_zetad, "hermite": f_hermite, "assoc_legendre": f_assoc,
    "spherical_harmonic": f_ynm, "ynm": f_ynm, "exp_polar": mpmath.exp,
}
CONSTS = {"pi": lambda: +mpmath.pi, "PI": lambda: +mpmath.pi, "Pi": lambda: +mpmath.pi, "e": lambda: +mpmath.e, "E": lambda: +mpmath.e}
# arguments that are integer orders (constant under differentiation)
ORDERS = {"besselj": 1, "bessely": 1, "besseli": 1, "besselk": 1, "polygamma": 1, "zeta_deriv": 1, "hermite": 1,
          "assoc_legendre": 2, "spherical_harmonic": 2, "ynm": 2}
ARITY = {"log": 2, "atan2": 2, "besselj": 2, "bessely": 2, "besseli": 2, "besselk": 2, "polygamma": 2, "beta": 2, "zeta_deriv": 2,
         "hermite": 2, "assoc_legendre": 3, "spherical_harmonic": 4, "ynm": 4}


def arity(nm):
    return ARITY.get(nm, 1)


# numeric kernels of the crate by their last path segment, and float operations of the engine
KERNEL = {"eval_gamma": "gamma", "eval_digamma": "digamma", "eval_trigamma": "trigamma", "eval_tetragamma": "tetragamma",
          "eval_polygamma": "polygamma", "eval_erf": "erf", "eval_erfc": "erfc", "bessel_j": "besselj", "bessel_y": "bessely",
          "bessel_i": "besseli", "bessel_k": "besselk", "eval_lambert_w": "lambertw", "eval_elliptic_k": "elliptic_k",
          "eval_elliptic_e": "elliptic_e", "eval_zeta": "zeta", "eval_zeta_deriv": "zeta_deriv", "eval_hermite": "hermite",
          "eval_assoc_legendre": "assoc_legendre", "eval_spherical_harmonic": "spherical_harmonic", "eval_exp_polar": "exp_polar",
          "eval_beta": "beta", "eval_sinc": "sinc", "eval_lgamma": "lgamma"}
FLOAT1 = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log10", "log2",
          "sqrt", "cbrt", "abs", "floor", "ceil", "round"}

# builders of Expr: name -> (shape)
BUILD = ("number add_expr sub_expr mul_expr div_expr pow pow_static pow_from_arcs div_from_arcs mul_from_arcs sum product "
         "sum_from_arcs product_from_arcs negate func_symbol func_symbol_arc func func_multi func_multi_symbol "
         "func_multi_from_arcs func_multi_from_arcs_symbol call symbol from_interned derivative derivative_interned").split()
EXPR = "core::expr::Expr"


def build_models(prog, skip=(), names=BUILD):
    """expression constructors as free constructors of the term algebra"""
    def mk(nm):
        return lambda I_, st, args, r, d, tys: ("app", "E:" + nm) + tuple(I_.deep(st, a) for a in args)
    m = {f"{EXPR}::{x}": mk(x) for x in names if x not in skip}
    m["core::known_symbols::get_symbol"] = lambda I_, st, args, r, d, tys: ("app", "sym", I_.deep(st, args[0]))
    # f64-bodied numeric kernels stay opaque
    return m


def known_names(prog):
    """field of the table of known symbols -> name it was interned from"""
    r = {}
    for b in prog.fns():
        if b.name.endswith("KnownSymbols::new"):
            it = Interp(prog, models={"core::symbol::registry::symb_interned": lambda I_, st, args, rr, d, tys: ("app", "intern", I_.deep(st, args[0])),
                                      "core::symbol::interned::InternedSymbol::id": lambda I_, st, args, rr, d, tys: I_.deep(st, args[0])})
            st = State()
            for o in it.run(st, b, []):
                v = it.deep(o.st, o.val)
                if v[0] == "adt":
                    for f, x in zip(v[3], v[4]):
                        s = [y for y in walk(x) if y[0] == "s"]
                        if len(s) == 1:
                            r[f] = s[0][1]
    return r


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def fld_of(t, name):
    if t[0] == "adt":
        for f, v in zip(t[3], t[4]):
            if f == name:
                return v
    return None


class Val:
    """evaluation of terms under a valuation of the leaves"""

    def __init__(self, names, env, leaf=None, hooks=None):
        self.names = names          # known-symbol field -> function name
        self.env = env
        self.leaf = leaf            # called for unknown leaves: leaf(term, kind) -> value
        self.memo = {}
        self.hooks = hooks or {}

    # -------- names of function symbols
    def fname(self, t):
        t = strip_id(t)
        if t[0] == "app" and t[1] == "sym":
            t = strip_id(t[2])
        if t[0] == "s":
            return t[1]
        if t[0] == "fld" and t[1][0] == "static":
            return self.names.get(t[-1])
        if t[0] == "app" and t[1] == "intern":
            return self.fname(t[2])
        return self.hooks.get("fname", lambda x: None)(t)

    def call(self, name, args):
        if name in FN:
            if len(args) != arity(name):
                if name == "log" and len(args) == 1:
                    return f_ln(args[0])
                raise Unk(f"{name}/{len(args)}")
            return _real(FN[name](*args))
        raise Unk(f"function {name}")

    def seq(self, t):
        if t[0] == "arr":
            return list(t[1])
        if t[0] == "seq":
            raise Unk("sequence")
        h = self.hooks.get("seq")
        if h:
            r = h(t)
            if r is not None:
                return r
        raise Unk(f"sequence {t[0]}")

    def e(self, t):
        """value of an Expr-valued term"""
        r = self.memo.get(("e", t))
        if r is None:
            try:
                r = self._e(t)
            except Und as u:
                r = u
            self.memo[("e", t)] = r
        if isinstance(r, Und):
            raise Und()
        return r

    def _e(self, t):
        if t in self.env:
            v = self.env[t]
            if v is None:
                raise Und()
            return v
        k = t[0]
        if k == "app" and t[1].startswith("E:"):
            b, a = t[1][2:], t[2:]
            if b == "number":
                return self.f(a[0])
            if b == "add_expr":
                return self.e(a[0]) + self.e(a[1])
            if b == "sub_expr":
                return self.e(a[0]) - self.e(a[1])
            if b == "mul_expr":
                return self.e(a[0]) * self.e(a[1])
            if b in ("div_expr", "div_from_arcs"):
                return self.e(a[0]) * inv_(self.e(a[1]))
            if b in ("pow", "pow_static", "pow_from_arcs"):
                return fpow(self.e(a[0]), self.e(a[1]))
            if b in ("mul_from_arcs", "product", "product_from_arcs"):
                r = mpf(1)
                for x in self.seq(a[0]):
                    r *= self.e(x)
                return r
            if b in ("sum", "sum_from_arcs"):
                r = mpf(0)
                for x in self.seq(a[0]):
                    r += self.e(x)
                return r
            if b == "negate":
                return -self.e(a[0])
            if b in ("func_symbol", "func_symbol_arc", "func"):
                return self.fcall(a[0], [a[1]])
            if b in ("func_multi", "func_multi_symbol", "func_multi_from_arcs", "func_multi_from_arcs_symbol", "call"):
                return self.fcall(a[0], self.seq(a[1]))
            if b in ("symbol", "from_interned"):
                return self.sym(a[0])
            raise Unk(b)
        if k == "adt" and t[1] == EXPR:
            return self.kind(fld_of(t, "kind"))
        if k == "adt" and t[1].endswith("ExprKind"):
            return self.kind(t)
        h = self.hooks.get("expr")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if self.leaf:
            v = self.leaf(t, "e")
            self.env[t] = v
            return v
        raise Unk(f"leaf {t[:2]}")

    def sym(self, t):
        nm = self.fname(t)
        if nm in CONSTS:
            return CONSTS[nm]()
        key = ("symval", nm or strip_id(t))
        if key not in self.env:
            if not self.leaf:
                raise Unk("symbol")
            self.env[key] = self.leaf(key, "e")
        return self.env[key]

    def fcall(self, name, args):
        vals = [self.e(a) for a in args]
        nm = self.fname(name)
        if nm is None or nm not in FN:
            if not self.leaf:
                raise Unk(f"function {nm}")
            key = ("ufn", strip_id(name) if nm is None else nm, tuple(vals))
            if key not in self.env:
                self.env[key] = self.leaf(key, "e")
            return self.env[key]
        return self.call(nm, vals)

    def kind(self, t):
        if t is None:
            raise Unk("kind")
        if t[0] != "adt":
            h = self.hooks.get("kind")
            r = h(self, t) if h else None
            if r is None:
                raise Unk("kind")
            return r
        v, a = t[2], t[4]
        if v == "Number":
            return self.f(a[0])
        if v == "Symbol":
            return self.sym(a[0])
        if v == "Sum":
            return sum((self.e(x) for x in self.seq(a[0])), mpf(0))
        if v == "Product":
            r = mpf(1)
            for x in self.seq(a[0]):
                r *= self.e(x)
            return r
        if v == "Div":
            return self.e(a[0]) * inv_(self.e(a[1]))
        if v == "Pow":
            return fpow(self.e(a[0]), self.e(a[1]))
        if v == "FunctionCall":
            return self.fcall(fld_of(t, "name"), self.seq(fld_of(t, "args")))
        raise Unk(v)

    # -------- f64 / integer terms
    def f(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self._f(t)
            except Und as u:
                r = u
            self.memo[t] = r
        if isinstance(r, Und):
            raise Und()
        return r

    def _f(self, t):
        if t in self.env:
            v = self.env[t]
            if v is None:
                raise Und()
            return v
        k = t[0]
        if k == "f":
            x = float(t[1])
            if x != x or x in (float("inf"), float("-inf")):
                raise Und()
            return mpf(x)
        if k == "i":
            return mpf(t[1])
        if k == "lin":
            return t[1] + sum(c * self.f(a) for a, c in t[2])
        if k == "op":
            o, a = t[1], t[2:]
            if o == "add":
                return self.f(a[0]) + self.f(a[1])
            if o == "sub":
                return self.f(a[0]) - self.f(a[1])
            if o in ("mul", "imul"):
                return self.f(a[0]) * self.f(a[1])
            if o == "div":
                return self.f(a[0]) * inv_(self.f(a[1]))
            if o == "neg":
                return -self.f(a[0])
            if o.startswith("cast_"):
                x = self.f(a[0])
                w = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "u8": (0, 255), "u16": (0, 2**16 - 1),
                     "u32": (0, 2**32 - 1)}.get(o[5:], (0 if o[5] == "u" else -2**63, 2**63 - 1))
                if not w[0] <= x <= w[1]:
                    raise Unk("wrapping cast")
                return x
            if o == "i2f":
                return self.f(a[0])
            if o == "f2i":
                return mpf(int(self.f(a[0])))
            if o == "pow":
                return fpow(self.f(a[0]), self.f(a[1]))
            if o == "log":
                return flog(self.f(a[1]), self.f(a[0]))
            if o == "atan2":
                return FN["atan2"](self.f(a[0]), self.f(a[1]))
            if o == "expm1":
                return mpmath.expm1(self.f(a[0]))
            if o == "log1p":
                return f_ln(1 + self.f(a[0]))
            if o == "exp2":
                return mpmath.power(2, self.f(a[0]))
            if o == "recip":
                return inv_(self.f(a[0]))
            if o == "trunc":
                return mpf(int(self.f(a[0])))
            if o == "fract":
                x = self.f(a[0])
                return x - int(x)
            if o == "signum":
                return mpmath.sign(self.f(a[0])) or mpf(1)
            if o in ("fmin", "imin", "min"):
                return min(self.f(a[0]), self.f(a[1]))
            if o in ("fmax", "imax", "max"):
                return max(self.f(a[0]), self.f(a[1]))
            if o in ("frem", "rem"):
                x, y = self.f(a[0]), self.f(a[1])
                dom(y != 0)
                return x - y * int(x / y)
            if o in FLOAT1:
                return _real(FN[o](self.f(a[0])))
            if o == "iabs":
                return abs(self.f(a[0]))
            if o == "ineg":
                return -self.f(a[0])
            if o in ("iDiv", "iRem"):
                x, y = int(self.f(a[0])), int(self.f(a[1]))
                dom(y != 0)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return mpf(q) if o == "iDiv" else mpf(x - y * q)
            if o == "powi":
                return fpow(self.f(a[0]), self.f(a[1]))
        if k == "fld" and t[1][0] == "idx" and t[1][1][0] == "arr":
            i = int(self.f(t[1][2]))
            xs = t[1][1][1]
            if 0 <= i < len(xs):
                x = fld_of(xs[i], t[-1]) if xs[i][0] == "adt" else xs[i][1][int(t[-1])] if xs[i][0] == "tup" else None
                if x is not None:
                    return self.f(x)
            raise Unk("index out of range")
        if k == "idx" and t[1][0] == "arr":
            i = int(self.f(t[2]))
            if 0 <= i < len(t[1][1]):
                return self.f(t[1][1][i])
            raise Unk("index out of range")
        if k == "app":
            nm = KERNEL.get(t[1].split("::")[-1])
            if nm:
                return self.call(nm, [self.f(x) for x in t[2:]])
        if k == "fld" and t[2] == "Some" and t[1][0] == "app" and "ToPrimitive::to_" in t[1][1]:
            return mpf(int(self.f(t[1][2])))
        if k == "fld" and t[2] == "Some" and t[1][0] == "app":
            nm = KERNEL.get(t[1][1].split("::")[-1])
            if nm:
                return self.call(nm, [self.f(x) for x in t[1][2:]])
        if k == "loop" and len(t) == 5 and isinstance(t[1], int):
            return self.loop(t)
        h = self.hooks.get("float")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if self.leaf and k not in ("op", "app", "loop", "hof"):
            v = self.leaf(t, "f")
            self.env[t] = v
            return v
        raise Unk(f"float {str(t)[:700]}")

    def loop(self, t, bound=300):
        """value of a loop summary: iterate its update equations"""
        lv, conts, upd = t[1], t[3], t[4]
        cur = [self.f(x) for x in t[2]]
        for _ in range(bound):
            v = copy.copy(self)
            v.memo = {}
            v.env = dict(self.env)
            for i, x in enumerate(cur):
                v.env[("bv", lv, i)] = x

            def holds(cs):
                return all(v.cond(a) == y for a, y in cs)
            if not any(holds(c) for c in conts):
                return cur[0]
            nxt = []
            for cases in upd:
                for cs, val in cases:
                    if holds(cs):
                        nxt.append(v.f(val))
                        break
                else:
                    raise Unk("loop step")
            cur = nxt
        raise Unk("loop bound")

    # -------- conditions
    def cond(self, t):
        """truth value of a boolean term (Und if it cannot hold at an undefined point)"""
        k = t[0]
        if k == "b":
            return t[1]
        if k == "has" and len(t) == 3:
            return self.f(t[2]) < self.f(t[1])
        if k == "op":
            o, a = t[1], t[2:]
            if o in ("eq", "lt", "le") and any(x == ("f", "nan") for x in walk(t)) and not any(x[0] in ("hof", "loop", "app") for x in walk(t)):
                return False
            if o == "eq":
                return self.f(a[0]) == self.f(a[1])
            if o == "lt":
                return self.f(a[0]) < self.f(a[1])
            if o == "le":
                return self.f(a[0]) <= self.f(a[1])
            if o == "not":
                return not self.cond(a[0])
            if o == "is_nan" or o == "is_infinite":
                try:
                    self.f(a[0])
                    return False
                except Und:
                    return True
            if o == "is_finite":
                try:
                    self.f(a[0])
                    return True
                except Und:
                    return False
            if o == "is_sign_negative":
                return self.f(a[0]) < 0
            if o == "is_sign_positive":
                return self.f(a[0]) >= 0
        raise Unk(f"cond {t[:2]}")


def strip_id(t):
    """the symbol a symbol-id term belongs to"""
    while True:
        if t[0] == "app" and t[1].endswith("::id") and len(t) == 3:
            t = t[2]
        elif t[0] == "app" and t[1] == "sym":
            t = t[2]
        elif t[0] == "app" and len(t) == 3 and t[1].split("::")[-1] in ("into", "from_ffi", "as_ffi", "data", "clone"):
            t = t[2]
        elif t[0] == "fld" and t[2] == "Some" and t[1][0] == "app" and t[1][1].endswith("SlotMap::get"):
            t = t[1][3]          # the registry maps an id to the symbol it was given to
        elif t[0] == "fld" and t[-1] in ("id", "key") and t[1][0] != "static":
            t = t[1]
        else:
            return t


def close(a, b, tol=mpf(10) ** -11):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
