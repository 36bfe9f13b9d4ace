"""Normal form of real-valued terms: Laurent polynomials with exact rational coefficients over atoms
(inputs, transcendental subterms, compound denominators), fractional exponents for roots, exp split
over sums, trig/hyperbolic functions reduced to sin,cos / exp.  Equality of two terms is decided by
expanding their difference over a common denominator; no sampling, no solver."""
from fractions import Fraction as Q
import math
from sx import op, F, I


class TooBig(Exception):
    pass


ONE = ()
_key = {}


def K(a):
    k = _key.get(a)
    if k is None:
        k = repr(a)
        if len(_key) > 200000:
            _key.clear()
        _key[a] = k
    return k


CONSTS = []  # (value, {atom: exp})
PI, LN2, LN10, E1 = ("pi",), ("lnc", 2), ("lnc", 10), ("exp", ())


def _mkconsts():
    def p(n, e):
        return (("prime", n), e)
    h = Q(1, 2)
    base = [
        (math.pi, [(PI, Q(1))]), (1 / math.pi, [(PI, Q(-1))]), (math.pi ** 2, [(PI, Q(2))]),
        (math.sqrt(math.pi), [(PI, h)]), (1 / math.sqrt(math.pi), [(PI, -h)]),
        (math.sqrt(2), [p(2, h)]), (math.sqrt(3), [p(3, h)]), (math.sqrt(2 * math.pi), [(PI, h), p(2, h)]),
        (1 / math.sqrt(2 * math.pi), [(PI, -h), p(2, -h)]),
        (math.sqrt(2 / math.pi), [(PI, -h), p(2, h)]), (math.log(2), [(LN2, Q(1))]), (1 / math.log(2), [(LN2, Q(-1))]),
        (math.log(10), [(LN10, Q(1))]), (1 / math.log(10), [(LN10, Q(-1))]), (math.e, [(E1, Q(1))]), (1 / math.e, [(E1, Q(-1))]),
        (1 / math.sqrt(3), [p(3, -h)]),
    ]
    for v, m in base:
        CONSTS.append((v, m))


_mkconsts()


def const_of(x):
    """float -> (Fraction, [(atom, exp)])"""
    if x == int(x) and abs(x) < 1e300:
        return Q(int(x)), []
    r = repr(x)
    digs = len(r.replace(".", "").replace("-", "").split("e")[0].strip("0"))
    if digs < 12:
        return Q(r), []
    q = Q(x).limit_denominator(400)
    if q != 0 and abs(float(q) - x) <= 3e-16 * abs(x):
        return q, []
    for v, m in CONSTS:
        q = Q(x / v).limit_denominator(96)
        if q != 0 and abs(float(q) * v - x) <= 5e-16 * abs(x):
            return q, m
    return Q(r), []


def pconst(q):
    return {ONE: Q(q)} if q else {}


def atom(a, e=1):
    return {((a, Q(e)),): Q(1)}


def addp(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


LIMIT = 6000


def mulm(m1, m2):
    """product of two monomials (sorted tuples)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: K(x[0])))


def mulp(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mulm(m1, m2)
            for mm, cc in reduce_m(m).items():
                v = r.get(mm, 0) + c1 * c2 * cc
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def reduce_m(m):
    """rewrite a monomial by the defining relations of its atoms"""
    for i, (a, e) in enumerate(m):
        rest = m[:i] + m[i + 1:]
        k = a[0]
        if k == "sin" and e >= 2 and e.denominator == 1:
            c2 = addp(pconst(1), atom(("cos", a[1]), 2), -1)
            out = {rest: Q(1)}
            for _ in range(int(e) // 2):
                out = mulp(out, c2)
            if int(e) % 2:
                out = mulp(out, atom(a))
            return out
        if k == "sgn" and e.denominator == 1 and e not in (0, 1):
            return mulp({rest: Q(1)}, atom(a) if int(e) % 2 else pconst(1))
        if k == "P" and e >= 1:
            n = int(e)
            f = e - n
            out = {rest + () if not f else mulm(rest, ((a, f),)): Q(1)}
            pp = thaw(a[1])
            for _ in range(n):
                out = mulp(out, pp)
            return out
        if k == "cbrt" and e.denominator == 1 and not 0 <= e < 3:
            n = int(e) // 3
            f = e - 3 * n
            out = {mulm(rest, ((a, f),)) if f else rest: Q(1)}
            return mulp(out, powi(thaw(a[1]), n))
        if k == "prime" and not 0 <= e < 1:
            n = e.numerator // e.denominator
            f = e - n
            return {mm: cc * Q(a[1]) ** n for mm, cc in reduce_m(mulm(rest, ((a, f),)) if f else rest).items()}
    return {m: Q(1)}


def freeze(p):
    return tuple(sorted(p.items(), key=lambda x: K(x[0])))


def thaw(fz):
    return dict(fz)


def split_content(p, signed=True):
    """p = c * m * p'  with p' having leading coeff 1 (or +-1) and no common monomial factor"""
    items = freeze(p)
    lead = items[0][1]
    c = lead if signed else abs(lead)
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, Q(0))) for a, e in common.items()} | {
                a: min(e, Q(0)) for a, e in d.items() if a not in common}
            common = {a: e for a, e in common.items() if e}
    if signed:
        cm = tuple(sorted(common.items(), key=lambda x: K(x[0])))
    else:
        # only factors that are surely positive may leave a root
        cm = tuple(sorted(((a, e) for a, e in common.items() if positive(a)), key=lambda x: K(x[0])))
    inv = tuple((a, -e) for a, e in cm)
    r = {}
    for m, v in items:
        r[mulm(m, inv)] = v / c
    return c, cm, r


def positive(a):
    return a[0] in ("exp", "pi", "prime", "lnc", "abs")


def inv(p):
    return powi(p, -1)


def powi(p, n):
    if n == 0:
        return pconst(1)
    if not p:
        return atom(("zero^",), n) if n < 0 else {}
    if n > 0:
        if n > 24:
            raise TooBig()
        r = pconst(1)
        for _ in range(n):
            r = mulp(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, e * n) for a, e in m)
        return {k: v * Q(c) ** n for k, v in reduce_m(mm).items()}
    c, cm, pp = split_content(p)
    # normalise sign/lead once more after monomial extraction
    items = freeze(pp)
    lead = items[0][1]
    pp = {m: v / lead for m, v in items}
    c = c * lead
    out = {tuple((a, e * n) for a, e in cm): Q(c) ** n}
    out2 = {}
    for m, v in out.items():
        for m2, v2 in reduce_m(m).items():
            out2[m2] = v * v2
    return mulp(out2, {((("P", freeze(pp)), Q(n)),): Q(1)})


def const_value(p):
    if not p:
        return Q(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def primes(n):
    r = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            r[d] = r.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def powq(p, q):
    """p ** q for rational q"""
    if q.denominator == 1:
        return powi(p, int(q))
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and (len(m) == 0 or len(m) == 1 and (m[0][1].denominator % 2 == 0 or m[0][1] == 1 or positive(m[0][0])
                                                       or m[0][1].numerator % 2 == 1 and m[0][1].denominator == 1)
                      or all(positive(a) for a, e in m)):
            out = {ONE: Q(1)}
            for pr, k in primes(c.numerator).items():
                out = mulp(out, {((("prime", pr), q * k),): Q(1)})
            for pr, k in primes(c.denominator).items():
                out = mulp(out, {((("prime", pr), -q * k),): Q(1)})
            for a, e in m:
                out = mulp(out, {((a, e * q),): Q(1)})
            return out
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and m and all(e.denominator == 1 and e % 2 == 0 and (e * q).denominator == 1 for a, e in m):
            # (x^2k)^(1/2) = |x|^k
            out = powq(pconst(c), q) if c != 1 else pconst(1)
            for a, e in m:
                out = mulp(out, {((a, e * q),): Q(1)})
                if (e * q) % 2:
                    out = mulp(out, atom(("sgn", freeze(atom(a)))))
            return out
    c, cm, pp = split_content(p, signed=False)
    out = pconst(1)
    if c > 0 and c != 1:
        out = mulp(out, powq(pconst(c), q))
    for a, e in cm:
        out = mulp(out, {((a, e * q),): Q(1)})
    return mulp(out, {((("P", freeze(pp)), q),): Q(1)})


def exp_of(p):
    out = pconst(1)
    for m, c in p.items():
        if len(m) == 1 and m[0][0][0] == "ln" and m[0][1] == 1:
            if c.denominator == 1:
                out = mulp(out, powi(thaw(m[0][0][1]), int(c)))
            else:
                out = mulp(out, powq(thaw(m[0][0][1]), c))
        else:
            out = mulp(out, {((("exp", m), c),): Q(1)})
    return out


def ln_of(p):
    c = const_value(p)
    if c == 1:
        return {}
    if c is not None and c > 0 and c.denominator == 1 and c.numerator < 10 ** 6:
        out = {}
        for pr, k in primes(c.numerator).items():
            if c == 10:
                break
            out = addp(out, scale(atom(("lnc", pr)), k))
        return out if c != 10 else atom(LN10)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][0][0] == "exp":
            return {m[0][0][1]: m[0][1]}
    return atom(("ln", freeze(p)))


def sign_norm(p):
    """(sign, p') with canonical leading sign"""
    if not p:
        return 1, p
    lead = freeze(p)[0][1]
    return (1, p) if lead > 0 else (-1, scale(p, -1))


class Norm:
    """mode: 'math' identifies expm1(x)=exp(x)-1, log1p etc.; 'fn' keeps them distinct"""

    def __init__(self, math_mode=False, atoms=None):
        self.memo = {}
        self.math = math_mode
        self.rules = atoms or {}

    def n(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def fz(self, t):
        return freeze(self.n(t))

    def go(self, t):
        k = t[0]
        if k == "f":
            x = float(t[1])
            if x != x or x in (math.inf, -math.inf):
                return atom(("const", repr(x)))
            c, m = const_of(x)
            if not m:
                return pconst(c)
            out = pconst(c)
            for a, e in m:
                out = mulp(out, {((a, e),): Q(1)})
            return out
        if k == "i":
            return pconst(t[1])
        if k == "lin":
            out = pconst(t[1])
            for a, c in t[2]:
                out = addp(out, scale(self.n(a), c))
            return out
        if k == "op":
            o = t[1]
            if o in ("add", "sub"):
                return addp(self.n(t[2]), self.n(t[3]), 1 if o == "add" else -1)
            if o == "mul":
                return mulp(self.n(t[2]), self.n(t[3]))
            if o == "neg":
                return scale(self.n(t[2]), -1)
            if o == "div":
                return mulp(self.n(t[2]), inv(self.n(t[3])))
            if o == "i2f":
                return self.n(t[2])
            if o == "pow":
                b, e = self.n(t[2]), self.n(t[3])
                c = const_value(e)
                if c is not None:
                    if c.denominator == 1 and abs(c) <= 24 or c.denominator != 1:
                        return powq(b, c)
                return exp_of(mulp(e, ln_of(b)))
            if o == "sqrt":
                return powq(self.n(t[2]), Q(1, 2))
            if o == "cbrt":
                p = self.n(t[2])
                c = const_value(p)
                if c is not None:
                    return powq(p, Q(1, 3)) if c >= 0 else scale(powq(scale(p, -1), Q(1, 3)), -1)
                s, p = sign_norm(p)
                return scale(atom(("cbrt", freeze(p))), s)
            if o == "exp":
                return exp_of(self.n(t[2]))
            if o == "exp2":
                return exp_of(mulp(self.n(t[2]), atom(LN2)))
            if o == "expm1" and self.math:
                return addp(exp_of(self.n(t[2])), pconst(1), -1)
            if o == "log1p" and self.math:
                return ln_of(addp(self.n(t[2]), pconst(1)))
            if o == "ln":
                return ln_of(self.n(t[2]))
            if o == "log10":
                return mulp(ln_of(self.n(t[2])), atom(LN10, -1))
            if o == "log2":
                return mulp(ln_of(self.n(t[2])), atom(LN2, -1))
            if o == "log":
                return mulp(ln_of(self.n(t[2])), inv(ln_of(self.n(t[3]))))
            if o in ("sin", "cos", "tan", "cot", "sec", "csc"):
                s, p = sign_norm(self.n(t[2]))
                f = freeze(p)
                if not p:
                    return pconst(0 if o in ("sin", "tan") else 1)
                S, C = atom(("sin", f)), atom(("cos", f))
                if o == "cos":
                    return C
                if o == "sin":
                    return scale(S, s)
                if o == "tan":
                    return scale(mulp(S, atom(("cos", f), -1)), s)
                if o == "cot":
                    return scale(mulp(C, atom(("sin", f), -1)), s)
                if o == "sec":
                    return atom(("cos", f), -1)
                return scale(atom(("sin", f), -1), s)
            if o in ("sinh", "cosh", "tanh", "coth", "sech", "csch"):
                p = self.n(t[2])
                a, b = exp_of(p), exp_of(scale(p, -1))
                sh, ch = scale(addp(a, b, -1), Q(1, 2)), scale(addp(a, b), Q(1, 2))
                if o == "sinh":
                    return sh
                if o == "cosh":
                    return ch
                n_, d_ = {"tanh": (sh, ch), "coth": (ch, sh), "sech": (pconst(1), ch), "csch": (pconst(1), sh)}[o]
                return mulp(n_, inv(d_))
            if o in ("asin", "atan", "asinh", "atanh", "erf"):
                s, p = sign_norm(self.n(t[2]))
                return scale(atom((o, freeze(p))), s)
            if o == "abs":
                s, p = sign_norm(self.n(t[2]))
                c = const_value(p)
                if c is not None:
                    return pconst(abs(c))
                return mulp(p, atom(("sgn", freeze(p))))
            if o == "signum":
                s, p = sign_norm(self.n(t[2]))
                return scale(atom(("sgn", freeze(p))), s)
            if o in ("add_", "fmax", "fmin"):
                xs = sorted((self.fz(x) for x in t[2:]), key=K)
                return atom((o,) + tuple(xs))
            return atom(("op", o) + tuple(self.arg(x) for x in t[2:]))
        if k in ("app",):
            return atom(("app", t[1]) + tuple(self.arg(x) for x in t[2:]))
        return atom(self.struct(t))

    ARITH = {"add", "sub", "mul", "neg", "div", "pow", "sqrt", "cbrt", "exp", "expm1", "log1p", "ln", "sin", "cos", "tan",
             "sinh", "cosh", "tanh", "abs", "signum", "i2f", "log10", "log2", "log", "asin", "atan", "asinh", "atanh", "exp2",
             "fmax", "fmin"}

    def arg(self, x):
        """canonical form of an argument of an uninterpreted function"""
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            return x
        if x[0] == "f" or x[0] == "op" and x[1] in self.ARITH:
            p = self.n(x)
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return m[0][0]
            return ("P", freeze(p))
        if x[0] in ("op", "app"):
            return self.single(self.n(x))
        return self.struct(x)

    def single(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return ("P", freeze(p))

    def struct(self, t):
        out = []
        for x in t:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    out.append(self.arg(x))
                else:
                    out.append(self.struct(x))
            else:
                out.append(x)
        return tuple(out)

    # -------------------------------------------------------------- equality
    def is_zero(self, p):
        for _ in range(12):
            if not p:
                return True
            # clear denominators
            need = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a[0] in ("P", "sin", "cbrt"):
                        need[a] = max(need.get(a, 0), -(e.numerator // e.denominator))
            if not need:
                return False
            for a, k in need.items():
                if a[0] == "P":
                    r = {}
                    for m, c in p.items():
                        d = dict(m)
                        e = d.pop(a, Q(0)) + k
                        base = {tuple(sorted(d.items(), key=lambda x: K(x[0]))): c}
                        if e:
                            base = mulp(base, {((a, e),): Q(1)}) if e < 1 else mulp_reduced(base, a, e)
                        r = addp(r, base)
                    p = r
                else:
                    p = mulp(p, atom(a, k))
        return False

    def eq(self, a, b):
        if a == b:
            return True
        try:
            return self.is_zero(addp(self.n(a), self.n(b), -1))
        except TooBig:
            return None

    def show(self, t):
        try:
            return showp(self.n(t))
        except TooBig:
            return repr(t)[:400]


def mulp_reduced(base, a, e):
    out = base
    n = int(e)
    f = e - n
    pp = thaw(a[1])
    for _ in range(n):
        out = mulp(out, pp)
    if f:
        out = mulp(out, {((a, f),): Q(1)})
    return out


def showa(a):
    if a[0] == "P":
        return "(" + showp(thaw(a[1])) + ")"
    if a[0] == "exp":
        return "exp(" + showm(a[1]) + ")" if a[1] else "e"
    if a[0] in ("prime",):
        return str(a[1])
    if a[0] == "lnc":
        return f"ln{a[1]}"
    if a[0] in ("sin", "cos", "ln", "sgn", "cbrt", "asin", "atan", "asinh", "atanh", "erf"):
        return f"{a[0]}(" + showp(thaw(a[1])) + ")"
    if a[0] in ("op", "app"):
        return f"{str(a[1]).split('::')[-1]}(" + ", ".join(showx(x) for x in a[2:]) + ")"
    return showx(a)


def showx(x):
    if not isinstance(x, tuple) or not x:
        return str(x)
    if x[0] in ("P", "exp", "op", "app"):
        return showa(x)
    if x[0] in ("var", "arg", "st", "ca"):
        return ".".join(str(y) for y in x[1:])
    if x[0] == "fld":
        return showx(x[1]) + "." + ("" if x[2] in ("", None) else str(x[2]) + ".") + str(x[3])
    if x[0] == "idx":
        return showx(x[1]) + "[" + showx(x[2]) + "]"
    return "(" + " ".join(showx(y) for y in x) + ")" if len(repr(x)) < 500 else x[0] + "…"


def showm(m):
    return "·".join(showa(a) + ("" if e == 1 else f"^{e}") for a, e in m) or "1"


def showp(p):
    if not p:
        return "0"
    return " + ".join((f"{c}" if not m else showm(m) if c == 1 else f"{c}·{showm(m)}") for m, c in freeze(p))[:700]


# ---- path conditions --------------------------------------------------------------------------
def conflict(p, q, nz=None):
    """are two path conditions (dict atom -> value) jointly impossible?"""
    for a, v in p.items():
        w = q.get(a)
        if w is None or v == w:
            continue
        if isinstance(v, bool) and isinstance(w, bool):
            return True
        if isinstance(v, str) and isinstance(w, str):
            return True
        if isinstance(v, str) and isinstance(w, tuple) and v in w[1]:
            return True
        if isinstance(w, str) and isinstance(v, tuple) and w in v[1]:
            return True
    return not consistent({**p, **q})


def consistent(pc):
    """cheap consistency of float comparison atoms"""
    T = [a for a, v in pc.items() if v is True and a[0] == "op"]
    Ts = set(T)
    nan = {a[2] for a in T if a[1] == "is_nan"}
    for a in T:
        if a[1] in ("lt", "le", "eq"):
            x, y = a[2], a[3]
            if x in nan or y in nan:
                return False
        if a[1] == "lt":
            if op("lt", a[3], a[2]) in Ts or op("le", a[3], a[2]) in Ts:
                return False
            if pc.get(op("le", a[2], a[3])) is False:
                return False
            if op("eq", a[2], a[3]) in Ts or op("eq", a[3], a[2]) in Ts:
                return False
        if a[1] == "eq":
            if pc.get(op("le", a[2], a[3])) is False or pc.get(op("le", a[3], a[2])) is False:
                return False
    # constant bounds on the same term
    lo, hi = {}, {}

    def fv(t):
        return float(t[1]) if t[0] == "f" else None
    for a, v in pc.items():
        if a[0] != "op" or a[1] not in ("lt", "le", "eq") or v is not True:
            continue
        x, y = a[2], a[3]
        fx, fy = fv(x), fv(y)
        if fx is not None and fy is None:
            b = (fx, a[1] == "lt")
            if y not in lo or b > lo[y]:
                lo[y] = b
            if a[1] == "eq":
                b = (fx, False)
                hi[y] = min(hi.get(y, (math.inf, False)), b)
        if fy is not None and fx is None:
            b = (fy, a[1] != "lt")
            hi[x] = min(hi.get(x, (math.inf, True)), b)
            if a[1] == "eq":
                lo[x] = max(lo.get(x, (-math.inf, False)), (fy, False))
    for x in lo:
        if x in hi:
            l, ls = lo[x]
            h, hn = hi[x]
            if l > h or l == h and (ls or not hn and any(
                    a[1] == "lt" and a[2] == x and fv(a[3]) == h and v is True for a, v in pc.items() if a[0] == "op")):
                return False
    return True
