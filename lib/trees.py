"""Instantiation of extracted paths by expression trees.

The interpreter explores code over an expression of known top-level shape with opaque children, recording which facts about the
children each path depends on (their variants, list lengths, literals, function names, equality of subterms).  This module finds
concrete trees for the opaque children that satisfy a path condition and evaluates the path's closed form and the original
expression at sample points.  Only the extracted formulas are evaluated; nothing of the analysed program is run.

Trees: ("num", v) ("sym", name) ("sum", (..)) ("prod", (..)) ("div", a, b) ("pow", a, b) ("fn", name, (..)) ("poly", base, ((p, c)..))
("der", f, var, order)."""
import random
import re
from sx import *
import den
from den import Val, Und, Unk, mpf, mpmath, EXPR, FN, CONSTS, close, fpow, inv_, strip_id
from tmpl import EK, V

KINDS = {"num": "Number", "sym": "Symbol", "sum": "Sum", "prod": "Product", "div": "Div", "pow": "Pow", "fn": "FunctionCall", "poly": "Poly", "der": "Derivative"}
BACK = {v: k for k, v in KINDS.items()}
NUMS = [0.0, 1.0, 2.0, 3.0, -1.0, 0.5, -2.0, 4.0, 1.5, -0.5, -3.0, 5.0, 2.5, 6.0, -4.0]
USER = ("f", "g")
CHECKED = re.compile(r"<?([iu])(\d+|size)>?::checked_(add|sub|mul)$")


class Miss(Exception):
    """a term names a part the tree does not have"""


def children(n):
    k = n[0]
    if k in ("sum", "prod"):
        return n[1]
    if k in ("div", "pow"):
        return n[1:3]
    if k == "fn":
        return n[2]
    if k == "poly":
        return (n[1],)
    if k == "der":
        return (n[1],)
    return ()


def syms(n, acc=None):
    acc = set() if acc is None else acc
    if n[0] == "sym" and n[1] not in CONSTS:
        acc.add(n[1])
    for c in children(n):
        syms(c, acc)
    return acc


def is_const(n):
    return not syms(n) and not any(f not in FN for f in fns(n))


def fns(n):
    r = {n[1]} if n[0] == "fn" else set()
    for c in children(n):
        r |= fns(c)
    return r


def canon(n):
    """commutative operands in a fixed order"""
    if n[0] in ("sum", "prod"):
        return (n[0], tuple(sorted((canon(c) for c in n[1]), key=repr)))
    if n[0] in ("div", "pow"):
        return (n[0], canon(n[1]), canon(n[2]))
    if n[0] == "fn":
        return (n[0], n[1], tuple(canon(c) for c in n[2]))
    if n[0] == "poly":
        return (n[0], canon(n[1]), n[2])
    return n


def show(n):
    k = n[0]
    if k == "num":
        return f"{n[1]:g}"
    if k == "sym":
        return n[1]
    if k == "sum":
        return "(" + " + ".join(show(c) for c in n[1]) + ")"
    if k == "prod":
        return "*".join(show(c) if c[0] != "num" or c[1] >= 0 else f"({show(c)})" for c in n[1])
    if k == "div":
        return f"({show(n[1])})/({show(n[2])})"
    if k == "pow":
        return f"({show(n[1])})^({show(n[2])})"
    if k == "fn":
        return f"{n[1]}({', '.join(show(c) for c in n[2])})"
    if k == "poly":
        return "poly[" + " + ".join(f"{float(c):g}*({show(n[1])})^{p}" for p, c in n[2]) + "]"
    return repr(n)


def value(n, sv, memo=None):
    """value of a tree at a point (symbol -> number); Und where it is not defined"""
    memo = {} if memo is None else memo
    if n in memo:
        r = memo[n]
        if r is None:
            raise Und()
        return r
    try:
        r = _value(n, sv, memo)
        if isinstance(r, mpmath.mpc):
            r = den._real(r)
    except (Und, ZeroDivisionError, OverflowError):
        memo[n] = None
        raise Und()
    memo[n] = r
    return r


def _value(n, sv, memo):
    k = n[0]
    if k == "num":
        return mpf(n[1])
    if k == "sym":
        if n[1] in CONSTS:
            return CONSTS[n[1]]()
        return sv[n[1]]
    if k == "sum":
        return sum((value(c, sv, memo) for c in n[1]), mpf(0))
    if k == "prod":
        r = mpf(1)
        for c in n[1]:
            r *= value(c, sv, memo)
        return r
    if k == "div":
        return value(n[1], sv, memo) * inv_(value(n[2], sv, memo))
    if k == "pow":
        return fpow(value(n[1], sv, memo), value(n[2], sv, memo))
    if k == "fn":
        a = [value(c, sv, memo) for c in n[2]]
        return apply(n[1], a)
    if k == "poly":
        b = value(n[1], sv, memo)
        return sum((mpf(c) * b ** p for p, c in n[2]), mpf(0))
    raise Unk(k)


def apply(name, a):
    if name in FN:
        if len(a) != den.arity(name):
            raise Unk(f"{name}/{len(a)}")
        if max((abs(x) for x in a), default=0) > 1e4:
            raise Und()
        if name in ("signum", "sign", "sgn") and a[0] == 0:
            raise Und()          # conventions differ at 0
        return den._real(FN[name](*a))
    r = mpf(len(name) + sum(map(ord, name)) % 17) / 7
    for i, x in enumerate(a):
        r += (x + mpf(i)) ** 2 / (3 + i) + x / 3
    return r


class TreeVal(Val):
    """meaning of terms over the accessors of bound trees at one point"""

    def __init__(self, names, bind, sv, hooks=None, env=None):
        super().__init__(names, dict(env or {}), hooks=hooks)
        self.bind, self.sv = bind, sv
        self.vmemo = {}
        self.rmemo = {}
        self.atoms = {}

    def with_point(self, sv):
        v = type(self)(self.names, self.bind, sv, self.hooks)
        v.rmemo = self.rmemo
        return v

    # ---- calls and iterations the extraction left symbolic
    def scoped(self, bind):
        v = type(self)(self.names, {**self.bind, **bind}, self.sv, self.hooks, self.env)
        for k, x in bind.items():
            if isinstance(x, mpf):
                v.env[k] = x
        return v

    def through(self, t):
        """(valuation, result term) of a call of a function of the program, following the path its arguments take"""
        s = self.hooks.get("prog")
        outs = s.outs(t[1], len(t) - 2) if s else None
        if outs is None:
            raise Unk(f"call {t[1]}")
        bind = {}
        for i, a in enumerate(t[2:]):
            try:
                bind[("var", f"$p{i}")] = self.res(a)
            except Unk:
                try:
                    bind[("var", f"$p{i}")] = self.f(a)
                except Unk:
                    pass
        memo = self.hooks.setdefault("through", {})
        key = (type(self), t[1], repr(sorted(self.sv.items(), key=repr)) if isinstance(self.sv, dict) else repr(self.sv), tuple(sorted(bind.items(), key=lambda kv: kv[0])) if len(bind) == len(t) - 2 else None)
        try:
            hash(key)
        except TypeError:
            key = None
        if key is not None and key[3] is not None and key in memo:
            got = memo[key]
            if isinstance(got, Exception):
                raise got
            return got
        v = type(self)(self.names, bind, self.sv, self.hooks)
        for k, x in bind.items():
            if isinstance(x, mpf):
                v.env[k] = x
        s.depth += 1
        try:
            if s.depth > 12:
                raise Unk("recursion depth")
            unk = None
            for pc, r in outs:
                try:
                    if v.pc_holds(pc):
                        if key is not None and key[3] is not None:
                            memo[key] = (v, r)
                        return v, r
                except Unk as u:
                    unk = u
            if key is not None and key[3] is not None and not (unk and "depth" in str(unk)):
                memo[key] = Unk(f"no path of {t[1]}") if unk is None else unk
                raise memo[key]
            raise unk or Unk(f"no path of {t[1]}")
        finally:
            s.depth -= 1

    def lam(self, l, vals):
        """(valuation, result term) of a closure applied to values"""
        if l[0] != "lam":
            raise Unk("closure")
        v = self.scoped({("bv", 1000 + l[1], i): x for i, x in enumerate(vals)})
        for conds, r in l[3]:
            if v.pc_holds(dict(conds)):
                return v, r
        raise Unk("no case of the closure")

    def any_value(self, t):
        try:
            return self.res(t)
        except Unk:
            return self.f(t)

    def items(self, t):
        """elements of a sequence term"""
        k = t[0]
        if k == "arr":
            return [self.any_value(x) for x in t[1]]
        if k in ("map", "filter", "filter_map", "take_while") and len(t) == 3:
            r = []
            for x in self.items(t[1]):
                v, y = self.lam(t[2], [x])
                if k == "map":
                    r.append(v.any_value(y))
                elif k == "filter_map":
                    if v.variant_ok(y, "Some"):
                        r.append(v.any_value(y[4][0] if y[0] == "adt" else ("fld", y, "Some", "0")))
                elif v.cond(y):
                    r.append(x)
                elif k == "take_while":
                    break
            return r
        if k == "enum":
            return [(mpf(i), x) for i, x in enumerate(self.items(t[1]))]
        if k == "rev":
            return self.items(t[1])[::-1]
        if k == "chain":
            return self.items(t[1]) + self.items(t[2])
        if k == "zip":
            return list(zip(self.items(t[1]), self.items(t[2])))
        if k in ("skip", "take"):
            n = int(self.f(t[2]))
            return self.items(t[1])[n:] if k == "skip" else self.items(t[1])[:n]
        r = self.res(t)
        if isinstance(r, list):
            return r
        raise Unk("sequence")

    def hof(self, t):
        """value of an iteration: bool, number, list, or ("opt", x)"""
        k, xs = t[1], self.items(t[2])
        if k in ("all", "any"):
            g = all if k == "all" else any
            return g(v.cond(r) for v, r in (self.lam(t[4][0], [x]) for x in xs))
        if k in ("collect", "arr"):
            return xs
        if k == "count":
            return mpf(len(xs))
        if k in ("sum", "product"):
            a = mpf(0 if k == "sum" else 1)
            for x in xs:
                if not isinstance(x, mpf):
                    raise Unk("sum of non-numbers")
                a = a + x if k == "sum" else a * x
            return a
        if k in ("find", "position", "find_map"):
            for i, x in enumerate(xs):
                v, r = self.lam(t[4][0], [x])
                if k == "find_map":
                    if v.variant_ok(r, "Some"):
                        return ("opt", v.any_value(r[4][0] if r[0] == "adt" else ("fld", r, "Some", "0")))
                elif v.cond(r):
                    return ("opt", x if k == "find" else mpf(i))
            return ("opt", None)
        raise Unk(f"iteration {k}")

    # ---- structure
    def res(self, t):
        r = self.rmemo.get(t)
        if r is None:
            try:
                r = self._res(t)
            except (Unk, Miss) as u:
                r = u
            self.rmemo[t] = r
        if isinstance(r, Exception):
            raise r
        return r

    def _res(self, t):
        """tree, list of trees, name, literal or (power, coefficient) list that an accessor term denotes"""
        if t in self.bind:
            return self.bind[t]
        k = t[0]
        if k == "fld":
            x, var, f = t[1], t[2], t[3]
            if var == "" and x[0] == "adt":
                y = den.fld_of(x, f)
                if y is not None:
                    return self.res(y)
            if var == "":
                n = self.res(x)
                if f == "kind":
                    return n
                if f in ("0", "pointer", "ptr"):
                    return n
                if isinstance(n, tuple) and n and n[0] == "poly":
                    if f == "base":
                        return n[1]
                    if f == "terms":
                        return list(n[2])
                if isinstance(n, tuple) and f in ("0", "1") and len(n) == 2 and not isinstance(n[0], str):
                    return n[int(f)]
                raise Unk(f"field {f}")
            if var in ("Some", "Ok") and f == "0":
                if x[0] == "hof":
                    r = self.hof(x)
                    if isinstance(r, tuple) and len(r) == 2 and r[0] == "opt":
                        if r[1] is None:
                            raise Miss()
                        return r[1]
                if x[0] == "app" and self.hooks.get("prog"):
                    v, r = self.through(x)
                    if r[0] == "adt" and r[2] == var:
                        return v.any_value(r[4][0])
                    if r[0] != "adt":
                        return v.res(("fld", r, var, f))
                    raise Miss()
            n = self.res(x)
            if var in BACK:
                if not isinstance(n, tuple) or KINDS.get(n[0]) != var:
                    raise Miss()
                if var in ("Sum", "Product"):
                    return list(n[1])
                if var in ("Div", "Pow"):
                    return n[1 + int(f)]
                if var == "FunctionCall":
                    return n[1] if f == "name" else list(n[2])
                if var in ("Number", "Symbol"):
                    return n[1]
                if var == "Poly":
                    return n
                if var == "Derivative":
                    return n[{"inner": 1, "var": 2, "order": 3}[f]]
            raise Unk(f"payload {var}")
        if k == "idx":
            l = self.res(t[1])
            i = t[2][1] if t[2][0] == "i" else int(self.f(t[2]))
            if not isinstance(l, list) or not 0 <= i < len(l):
                raise Miss()
            return l[i]
        if k == "op" and t[1] == "subslice":
            l = self.res(t[2])
            a, b = int(self.f(t[3])), int(self.f(t[4]))
            return l[a:b]
        if k == "arr":
            return [self.res(x) for x in t[1]]
        if k == "tup":
            return tuple(self.res(x) for x in t[1])
        if k == "f":
            return mpf(float(t[1]))
        if k == "i":
            return mpf(t[1])
        if k == "s":
            return t[1]
        if k == "adt" and t[1] == EXPR:
            return self.res(den.fld_of(t, "kind"))
        if k == "adt" and t[1] == EK:
            v, a = t[2], t[4]
            if v == "Number":
                return ("num", float(self.f(a[0])))
            if v == "Symbol":
                return ("sym", self.name(a[0]))
            if v in ("Sum", "Product"):
                return (BACK[v], tuple(self.res(a[0])))
            if v in ("Div", "Pow"):
                return (BACK[v], self.res(a[0]), self.res(a[1]))
            if v == "Poly" and a[0][0] == "adt":
                ts = self.res(den.fld_of(a[0], "terms"))
                return ("poly", self.res(den.fld_of(a[0], "base")), tuple((int(p), float(q)) for p, q in ts))
            if v == "FunctionCall":
                return ("fn", self.name(den.fld_of(t, "name")), tuple(self.res(den.fld_of(t, "args"))))
            if v == "Derivative":
                return ("der", self.res(den.fld_of(t, "inner")), self.name(den.fld_of(t, "var")), int(self.f(den.fld_of(t, "order"))))
            if v == "Poly":
                n = self.res(a[0])
                if isinstance(n, tuple) and n[0] == "poly":
                    return n
        if k == "app" and t[1] == "E:number":
            return ("num", float(self.f(t[2])))
        if k == "app" and t[1] in ("E:func_symbol", "E:func_symbol_arc", "E:func"):
            return ("fn", self.name(t[2]), (self.res(t[3]),))
        if k == "app" and t[1] in ("E:symbol", "E:from_interned"):
            return ("sym", self.name(t[2]))
        h = self.hooks.get("res")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if k == "hof":
            r = self.hof(t)
            if isinstance(r, list):
                return r
        if k == "app" and self.hooks.get("prog") and (not t[1].startswith("E:") or t[1] in BUILT):
            v, r = self.through(t if t[1] not in BUILT else ("app", den.EXPR + "::" + t[1][2:]) + t[2:])
            return v.res(r)
        raise Unk(f"structure {t[:2]}" if k != "app" else f"structure {t[1]}")

    def name(self, t):
        n = super().fname(t)
        if n is None:
            n = self.res(strip_id(t))
        if isinstance(n, tuple) and n[0] == "sym":
            n = n[1]
        if not isinstance(n, str):
            raise Unk("name")
        return n

    def fname(self, t):
        try:
            return self.name(t)
        except (Unk, Miss):
            return None

    # ---- values
    def node_value(self, n):
        return value(n, self.sv, self.vmemo)

    def _e(self, t):
        if t in self.env:
            return super()._e(t)
        if not (t[0] == "app" and t[1].startswith("E:")):
            try:
                n = self.res(t)
                if isinstance(n, tuple) and n and n[0] in KINDS:
                    return self.node_value(n)
            except Miss:
                raise Unk("absent part")
            except Unk:
                pass
        return super()._e(t)

    def seq(self, t):
        if t[0] == "arr":
            return list(t[1])
        if t[0] == "app" and re.match(r"out0:.*::(sort\w*|reverse)$", t[1]):
            # sums and products do not depend on the order
            return self.seq(t[2])
        try:
            r = self.res(t)
            if isinstance(r, list):
                out = []
                for n in r:
                    k = ("treelit", n)
                    self.bind.setdefault(k, n)
                    out.append(k)
                return out
        except (Unk, Miss):
            pass
        return super().seq(t)

    def sym(self, t):
        n = self.fname(t)
        if n is None:
            raise Unk("symbol")
        return CONSTS[n]() if n in CONSTS else self.sv[n]

    def fcall(self, name, args):
        n = self.fname(name)
        if n is None:
            raise Unk("function name")
        return apply(n, [self.e(a) for a in args])

    def kind(self, t):
        if t[0] == "adt" and t[2] == "Poly":
            p = t[4][0]
            if p[0] == "adt":
                b = self.e(den.fld_of(p, "base"))
                s = mpf(0)
                for x in self.seq(den.fld_of(p, "terms")):
                    if x[0] != "tup":
                        raise Unk("poly terms")
                    s += self.f(x[1][1]) * b ** int(self.f(x[1][0]))
                return s
        return super().kind(t)

    def _f(self, t):
        if t[0] == "app" and t[1] == "const":
            raise Unk("option as number")
        if t[0] == "val":
            return self.e(t[1])
        if t[0] == "fld" and t[2] == "Some" and t[1][0] == "app" and t[1][1] in ("const", "as_number", "constval"):
            return self.opt(t[1])
        if t[0] == "fld" and t[2] == "Ok" and t[1][0] == "app" and t[1][1].endswith("::try_from"):
            return self.f(t[1][2])
        if t[0] == "fld" and t[2] == "Some" and t[1][0] == "app" and CHECKED.match(t[1][1]):
            r = self.checked(t[1])
            if r is None:
                raise Unk("absent part")
            return r
        if t[0] == "fld" and t[2] == "Some" and self.registered(t[1]):
            nm, args = self.registered(t[1])
            if nm not in FN or den.arity(nm) != len(args):
                raise Und("not a registered function")
            return FN[nm](*[self.f(a) for a in args])
        if t[0] == "len":
            try:
                r = self.res(t[1])
            except Miss:
                raise Unk("absent part")
            if isinstance(r, list):
                return mpf(len(r))
        if t[0] == "hof":
            r = self.hof(t)
            if isinstance(r, mpf):
                return r
        if t[0] in ("fld", "idx", "var", "bv"):
            try:
                r = self.res(t)
                if isinstance(r, (mpf, float, int)):
                    return mpf(r)
            except Miss:
                raise Unk("absent part")
            except Unk:
                pass
        if t[0] == "op" and len(t) > 2 and t[1].startswith("cast_"):
            return self.f(t[2])
        if t[0] == "op" and t[1] == "powi":
            return fpow(self.f(t[2]), self.f(t[3]))
        return super()._f(t)

    def opt(self, t):
        """value of an Option<f64> term when it is Some"""
        if t[1] == "constval":
            n = self.name(t[2])
            if n in CONSTS:
                return CONSTS[n]()
            raise Unk("not a constant")
        n = self.res(t[2])
        if t[1] == "as_number":
            if n[0] != "num":
                raise Unk("not a literal")
            return mpf(n[1])
        if not is_const(n):
            raise Unk("not constant")
        return self.node_value(n)

    def checked(self, t):
        """result of a checked integer operation, None when it does not fit"""
        m = CHECKED.match(t[1])
        n = 64 if m.group(2) == "size" else int(m.group(2))
        lo, hi = (0, 2 ** n) if m.group(1) == "u" else (-2 ** (n - 1), 2 ** (n - 1))
        a, b = self.f(t[2]), self.f(t[3])
        r = a + b if m.group(3) == "add" else a - b if m.group(3) == "sub" else a * b
        return r if lo <= r < hi else None

    def registered(self, t):
        """(function name, arguments) of a numeric evaluation through the function registry"""
        if t[0] == "app" and t[1] == "call" and t[2][0] == "fld" and t[2][-1] == "eval" and t[3][0] == "arr":
            r = t[2][1]
            if r[0] == "fld" and r[2] == "Some" and r[1][0] == "app" and r[1][1] == "registry":
                return self.name(r[1][2]), t[3][1]
        return None

    # ---- conditions
    def variant_ok(self, t, want):
        """can the enum term have this variant?"""
        def test(v):
            return v == want if isinstance(want, str) else v not in want[1]
        if t[0] == "app" and t[1] == "registry":
            return test("Some" if self.name(t[2]) in FN else "None")
        if t[0] == "app" and self.registered(t):
            nm, args = self.registered(t)
            return test("Some" if nm in FN and den.arity(nm) == len(args) else "None")
        if t[0] == "app" and t[1] == "const":
            n = self.res(t[2])
            if n[0] == "num" or (n[0] == "sym" and n[1] in CONSTS):
                return test("Some")
            if not is_const(n):
                return test("None")
            if want == "Some":
                try:
                    self.node_value(n)
                except Und:
                    return False
            return True
        if t[0] == "app" and t[1] == "as_number":
            return test("Some" if self.res(t[2])[0] == "num" else "None")
        if t[0] == "app" and t[1] == "constval":
            return test("Some" if self.name(t[2]) in CONSTS else "None")
        if t[0] == "app" and t[1].endswith("::try_from"):
            m = re.search(r"<([iu])(\d+|size) as", t[1])
            if m:
                n = 64 if m.group(2) == "size" else int(m.group(2))
                lo, hi = (0, 2 ** n) if m.group(1) == "u" else (-2 ** (n - 1), 2 ** (n - 1))
                return test("Ok" if lo <= self.f(t[2]) < hi else "Err")
        if t[0] == "app" and CHECKED.match(t[1]):
            return test("None" if self.checked(t) is None else "Some")
        h = self.hooks.get("variant")
        if h:
            r = h(self, t, want)
            if r is not None:
                return r
        if t[0] == "adt" and t[1] != EXPR and t[1] != EK:
            return test(t[2])
        if t[0] == "hof":
            r = self.hof(t)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "opt":
                return test("None" if r[1] is None else "Some")
        if t[0] == "app" and self.hooks.get("prog") and not t[1].startswith("E:"):
            v, r = self.through(t)
            return v.variant_ok(r, want)
        n = self.res(t)
        if isinstance(n, tuple) and n and n[0] in KINDS:
            return test(KINDS[n[0]])
        raise Unk("variant")

    def cond(self, t):
        if t[0] == "op" and t[1] == "eq":
            a, b = t[2], t[3]
            if a[0] == "discr" and b[0] == "discr":
                x, y = self.res(a[1]), self.res(b[1])
                if x[0] in KINDS and y[0] in KINDS:
                    return x[0] == y[0]
            if any(x[0] == "adt" and x[1].endswith("Option") for x in (a, b)):
                return self.opt_eq(a, b)
            x, y = self.fname(a), self.fname(b)
            if x is not None and y is not None:
                return x == y
            try:
                x, y = self.res(a), self.res(b)
            except (Unk, Miss):
                x = y = None
            if x is not None and y is not None:
                if isinstance(x, str) != isinstance(y, str):
                    return False
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] in KINDS:
                    if x != y and canon(x) == canon(y):
                        raise Unk("order of operands")
                    return x == y
                if isinstance(x, list) and isinstance(y, list):
                    return x == y
                if isinstance(x, str):
                    return x == y
        if t[0] == "app":
            if t[1] in ("is_zero_num", "is_one_num", "is_neg_one_num"):
                n = self.res(t[2])
                return n[0] == "num" and n[1] == {"is_zero_num": 0, "is_one_num": 1, "is_neg_one_num": -1}[t[1]]
            if t[1] == "empty":
                r = self.res(t[2])
                if isinstance(r, list):
                    return not r
        if t[0] == "op" and t[1] in ("and", "or"):
            v = [self.cond(x) for x in t[2:]]
            return all(v) if t[1] == "and" else any(v)
        h = self.hooks.get("cond")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if t[0] == "hof":
            r = self.hof(t)
            if isinstance(r, bool):
                return r
        if t[0] == "app" and self.hooks.get("prog") and not t[1].startswith("E:"):
            v, r = self.through(t)
            return v.cond(r)
        return super().cond(t)

    def opt_eq(self, a, b):
        def o(t):
            if t[0] == "adt":
                return self.f(t[4][0]) if t[2] == "Some" else None
            if t[0] == "app":
                try:
                    return self.opt(t)
                except Unk:
                    return None
            raise Unk("option")
        return o(a) == o(b)

    def atom_holds(self, a, x):
        if a[0] == "shape":
            return len(self.res(a[1])) == x
        if a[0] == "is":
            return bool(self.variant_ok(a[1], x))
        if hashes(a):
            # equal trees have equal hashes; different ones may collide
            return x is True or self.res(hashes(a)[0]) != self.res(hashes(a)[1])
        try:
            return self.cond(a) == x
        except Und:
            return False

    def pc_holds(self, pc, skip=None):
        """True / False; Unk when a condition is not understood"""
        unk = None
        for a, x in pc.items():
            if skip and skip(a):
                continue
            k = (id(a), x)
            c = self.atoms.get(k)
            if c is None:
                try:
                    r = self.atom_holds(a, x)
                except Miss:
                    r = False
                except Unk as u:
                    r = u
                c = self.atoms[k] = (a, r)
            if c[1] is False:
                return False
            if c[1] is not True:
                unk = unk or c[1]
        if unk:
            raise unk
        return True


class Sums:
    """extracted paths of the functions of the program that the extraction of others left symbolic (recursion)"""

    def __init__(self, prog, models, shapes=None):
        self.prog, self.models, self.shapes = prog, models, shapes
        self.memo, self.depth = {}, 0

    def outs(self, name, n):
        if name not in self.memo:
            self.memo[name] = self._outs(name, n)
        return self.memo[name]

    def _outs(self, name, n):
        b = self.prog.get(name)
        if b is None or b.nargs != n:
            return None
        it = Interp(self.prog, models=dict(self.models), max_outs=3000, max_steps=200000)
        it.unroll = 8
        it.shapes = self.shapes
        st = State()
        args = []
        for i in range(n):
            t = b.locals[i + 1]
            p = V(f"$p{i}")
            k = 0
            while t.startswith("&"):
                t = t[1:]
                k += 1
            for j in range(k):
                st.mem[("H", f"$p{i}", j)] = p
                p = ("ptr", ("H", f"$p{i}", j), (), False)
            args.append(p)
        try:
            return [(o.st.pc, it.deep(o.st, o.val)) for o in it.run(st, b, args) if o.kind == "ret"]
        except Give:
            return None


def hashes(a):
    """the nodes whose stored hashes an equality compares"""
    if a[0] == "op" and a[1] == "eq" and all(x[0] == "fld" and x[-1] == "hash" for x in a[2:4]):
        return a[2][1], a[3][1]
    return None


class Gen:
    """trees for the opaque children of a path"""

    def __init__(self, pc, rng, names, fnames=None, order=True):
        self.pc, self.rng, self.names = pc, rng, names
        self.kinds, self.shape, self.alias = {}, {}, {}
        self.consts, self.nonconst = set(), set()
        self.hints = []
        self.fhint, self.ftrue = [], {}
        self.dead = False
        nums = {}
        for a, x in pc.items():
            if a[0] == "is":
                t = a[1]
                if t[0] == "fld" and t[3] == "kind":
                    self.kinds[t[1]] = x
                elif t[0] == "app" and t[1] == "const":
                    if x == "Some":
                        self.consts.add(t[2])
                    else:
                        self.nonconst.add(t[2])
                elif t[0] == "app" and t[1] == "as_number" and x == "Some":
                    self.kinds.setdefault(t[2], "Number")
            elif a[0] == "shape":
                self.shape[a[1]] = x
            elif a[0] == "op" and a[1] == "eq" and x is True and not hashes(a):
                p, q = a[2], a[3]
                np, nq = self.fn_of(p), self.fn_of(q)
                if np is not None and nq is None:
                    self.ftrue[strip_id(q)] = np
                elif nq is not None and np is None:
                    self.ftrue[strip_id(p)] = nq
                elif np is None and nq is None:
                    if self.accessor(p) and self.accessor(q):
                        if not self.inside(p, q):
                            self.alias[p] = q
                        else:
                            self.alias[q] = p
            for y in den.walk(a):
                if y[0] == "f" and isinstance(y[1], str):
                    v = abs(float(y[1])) if y[1] not in ("nan", "inf", "-inf") else 0
                    if 1e-6 < v < 1e6:
                        self.hints += [v, -v]
                elif y[0] == "i" and abs(y[1]) <= 64 and len(y) == 2:
                    self.hints.append(float(y[1]))
                elif y[0] == "op" and len(y) > 2 and y[1] in ("div", "mul", "add", "sub") and all(z[0] in ("f", "i", "op") for z in den.walk(y)):
                    try:
                        v = abs(float(Val({}, {}).f(y)))
                        if 1e-6 < v < 1e6:
                            self.hints += [v, -v]
                    except (Und, Unk, ZeroDivisionError):
                        pass
                else:
                    n = self.fn_of(y)
                    if n in FN:
                        self.fhint.append(n)
            if a[0] == "op" and a[1] not in ("and", "or"):
                vs = set(self.nvars(a))
                if len(vs) == 1:
                    nums.setdefault(vs.pop(), []).append((a, x))
        # literals: the candidates that satisfy the conditions on them alone
        self.allowed = {}
        nums.pop(None, None)
        for t, cs in nums.items():
            base = t[1][2] if t[1][0] == "app" else t[1][1]
            cand = []
            for c in dict.fromkeys(self.hints + NUMS + [h + d for h in self.hints for d in (1, -1)] + [float(mpmath.pi), float(mpmath.e)]):
                v = Val({}, {t: mpf(c)})
                try:
                    if all(v.cond(a) == x for a, x in cs):
                        cand.append(c)
                except (Und, Unk, ZeroDivisionError):
                    pass
            old = self.allowed.get(base)
            self.allowed[base] = cand if old is None else [c for c in old if c in cand]
            if not self.allowed[base]:
                self.dead = True
        for t in self.consts | self.nonconst:
            k = self.kinds.get(t)
            if k == "Number" and t in self.nonconst or t in self.consts and t in self.nonconst:
                self.dead = True

    @staticmethod
    def nvars(a):
        st = [a]
        while st:
            y = st.pop()
            if isinstance(y, tuple) and y:
                if y[0] == "fld" and len(y) == 4 and (y[2] == "Number" or (y[2] == "Some" and y[1][0] == "app" and y[1][1] in ("const", "as_number"))):
                    yield y
                    continue
                if y[0] in ("var", "app", "idx", "len"):
                    yield None
                st.extend(z for z in y if isinstance(z, tuple))

    def fn_of(self, t):
        t = strip_id(t)
        if t[0] == "fld" and t[1][0] == "static":
            return self.names.get(t[-1])
        if t[0] == "s":
            return t[1]
        return None

    @staticmethod
    def accessor(t):
        while t[0] in ("fld", "idx"):
            t = t[1]
        return t[0] == "var"

    @staticmethod
    def inside(p, q):
        """p is a part of q"""
        while True:
            if p == q:
                return True
            if p[0] in ("fld", "idx"):
                p = p[1]
            else:
                return False

    def number(self):
        r = self.rng
        x = r.random()
        if x < 0.03:
            return r.choice((1e-9, -1e-9, 1 + 1e-9))    # small next to one, well above the tolerance of the crate
        return r.choice(self.hints) if self.hints and x < 0.55 else r.choice(NUMS)

    def rand(self, depth=2):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.38:
            y = r.random()
            if y < 0.62:
                return ("sym", r.choice("xxyyz"))
            if y < 0.93:
                return ("num", self.number())
            return ("sym", r.choice(("pi", "e")))
        if x < 0.56:
            f = r.choice(self.fhint) if self.fhint and r.random() < 0.5 else r.choice(("sin", "cos", "exp", "ln", "sqrt", "f", "abs", "tan"))
            return ("fn", f, tuple(self.rand(depth - 1) for _ in range(den.arity(f))))
        if x < 0.7:
            return ("sum", tuple(self.rand(depth - 1) for _ in range(2)))
        if x < 0.84:
            return ("prod", tuple(sorted((self.rand(depth - 1) for _ in range(2)), key=lambda n: n[0] != "num")))
        if x < 0.92:
            return ("pow", self.rand(depth - 1), ("num", self.number()) if r.random() < 0.7 else self.rand(depth - 1))
        return ("div", self.rand(depth - 1), self.rand(depth - 1))

    def const(self, t=None):
        r = self.rng
        if t in self.allowed:
            return ("num", r.choice(self.allowed[t]))
        if r.random() < 0.86:
            return ("num", self.number())
        if r.random() < 0.5:
            return ("sym", r.choice(("pi", "e")))
        return ("div", ("num", 1.0), ("num", r.choice((2.0, 3.0, 4.0))))

    def build(self, t, depth=2):
        """tree for the accessor term t"""
        if t in self.done:
            return self.done[t]
        if t in self.alias and t not in self.busy:
            self.busy.add(t)
            n = self.build(self.alias[t], depth)
            self.busy.discard(t)
            self.done[t] = n
            return n
        kt = ("fld", t, "", "kind")
        want = self.kinds.get(t)
        r = self.rng
        if want is None and t in self.consts:
            n = self.const(t)
        elif isinstance(want, str) and want != "Poly" and want != "Derivative":
            n = self.of_kind(t, kt, want, depth)
        elif want in ("Poly", "Derivative"):
            n = ("poly", ("sym", "x"), ((0, 1.5), (1, -2.0), (2, 1.0))) if want == "Poly" else ("der", ("fn", "f", (("sym", "x"),)), "x", 1)
        else:
            n = None
            for _ in range(12):
                n = self.rand(depth)
                if want is not None and KINDS[n[0]] in want[1]:
                    continue
                break
        self.done[t] = n
        return n

    def of_kind(self, t, kt, want, depth):
        r = self.rng
        f = lambda x: ("fld", kt, want, x)
        if want == "Number":
            return ("num", r.choice(self.allowed[t]) if self.allowed.get(t) else self.number())
        if want == "Symbol":
            n = self.ftrue.get(f("0"))
            return ("sym", n or (r.choice("xyz") if r.random() < 0.85 else r.choice(("pi", "e"))))
        if t in self.consts:
            # a constant compound
            if want in ("Div", "Pow"):
                return (BACK[want], self.const_at(f("0")), self.const_at(f("1")))
            if want in ("Sum", "Product"):
                k = self.shape.get(f("0")) or 2
                return (BACK[want], tuple(self.const_at(("idx", f("0"), I(i))) for i in range(k)))
        if want in ("Sum", "Product"):
            k = self.shape.get(f("0")) or r.choice((2, 2, 3))
            return (BACK[want], tuple(self.build(("idx", f("0"), I(i)), depth - 1) for i in range(k)))
        if want in ("Div", "Pow"):
            return (BACK[want], self.build(f("0"), depth - 1), self.build(f("1"), depth - 1))
        k = self.shape.get(f("args"))
        nm = self.ftrue.get(f("name"))
        if nm is None:
            c = [x for x in self.fhint + ["sin", "exp", "ln", "f"] if k is None or x == "f" or den.arity(x) == k]
            nm = r.choice(c)
        if k is None:
            k = den.arity(nm) if nm in FN else 1
        return ("fn", nm, tuple(self.build(("idx", f("args"), I(i)), depth - 1) for i in range(k)))

    def const_at(self, t):
        if t not in self.kinds and t not in self.done and t not in self.alias:
            self.done[t] = self.const(t)
        return self.build(t, 1)

    def trees(self, leaves):
        self.done, self.busy = {}, set()
        return {l: self.build(l) for l in leaves}


# builders of one node whose result the code of the builder itself determines
BUILT = {"E:div_expr", "E:div_from_arcs", "E:pow_static", "E:pow_from_arcs", "E:pow"}

POINTS = [{"x": mpf("0.7"), "y": mpf("1.3"), "z": mpf("2.1")}, {"x": mpf("-0.6"), "y": mpf("0.45"), "z": mpf("-1.7")},
          {"x": mpf("1.9"), "y": mpf("-2.3"), "z": mpf("0.3")}, {"x": mpf(0), "y": mpf(-3), "z": mpf("1.1")},
          {"x": mpf("0.25"), "y": mpf("0.6"), "z": mpf("0.85")}]


def instances(names, pc, leaves, rng, tries=120, want=3, hooks=None, skip=None, fixed=None, depth=2):
    """trees of the leaves that follow the path; yields TreeVal (without a point: at the first sample point)"""
    g = Gen(pc, rng, names)
    if g.dead:
        return [], "infeasible"
    found, unk = [], None
    seen = set()
    for _ in range(tries):
        b = g.trees(leaves)
        if fixed:
            b.update(fixed(rng, g))
        key = tuple(sorted(b.items(), key=repr))
        if key in seen:
            continue
        seen.add(key)
        v = TreeVal(names, b, POINTS[0], hooks)
        try:
            if v.pc_holds(pc, skip):
                found.append(v)
                if len(found) >= want:
                    break
        except Unk as u:
            unk = u
    return found, unk
