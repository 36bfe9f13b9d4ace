"""P13: dual numbers carry the value and the exact derivative."""
import re
from sx import *
import sx, den, p06, p07
from den import Val, FN, Und, Unk, mpf, mp, mpmath, close, inv_, fpow, flog, f_ln

RULE = ("Every arithmetic operator, Float method and special function of Dual (and of the Python class) is interpreted abstractly on symbolic duals; operations on "
        "duals inside a body stand for their own meaning, kernels for the function they compute. On every path the value part must be f of the value parts "
        "and the eps part the sum of the partial derivatives of f times the eps parts, at sample points of every branch.")
DUAL = "math::dual::Dual"


def step(x):
    return mpf(0)


def rem(x, y):
    den.dom(y != 0)
    return x - y * int(x / y)


# name -> function of the reals; partial derivatives are taken of it
F1 = {n: FN[n] for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log2", "log10", "sqrt", "cbrt",
                         "erf", "erfc", "gamma", "digamma", "trigamma", "tetragamma", "zeta", "lambertw", "sinc", "elliptic_k", "elliptic_e", "abs")}
F1.update({"lambert_w": FN["lambertw"], "exp2": lambda x: mpmath.power(2, x), "exp_m1": mpmath.expm1, "expm1": mpmath.expm1, "ln_1p": lambda x: f_ln(1 + x), "log1p": lambda x: f_ln(1 + x),
           "recip": inv_, "neg": lambda x: -x, "fract": lambda x: x - int(x)})
STEP = {"floor": mpmath.floor, "ceil": mpmath.ceil, "round": FN["round"], "trunc": lambda x: mpf(int(x)), "signum": mpmath.sign, "sign": mpmath.sign}
F2 = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x * inv_(y), "atan2": FN["atan2"],
      "hypot": lambda x, y: mpmath.sqrt(x * x + y * y), "log": lambda x, b: flog(b, x), "max": max, "min": min, "abs_sub": lambda x, y: max(x - y, mpf(0)), "beta": FN["beta"]}
ORD = {"polygamma": ("polygamma", (0, 1, 2, 3)), "bessel_j": ("besselj", (0, 1, 2, 3, -1, -2))}
XS = ["0.3", "-0.7", "1.7", "-2.3", "3.6", "0.05", "-0.2", "0.9"]


def lift(name, f, vs, es):
    """value and eps of a function of dual arguments"""
    if name == "pow":
        return power(vs[0], es[0], vs[1], es[1])
    v = den._real(f(*vs))
    e = mpf(0)
    for i, x in enumerate(es):
        if x:
            e += x * p07.partial(lambda *a: den._real(f(*a)), vs, i)
    return v, e


def power(x, dx, n, dn):
    v = fpow(x, n)
    e = mpf(0)
    if dx and n:
        e += dx * n * (fpow(x, n - 1) if n != 1 else 1)
    if dn and not (x == 0 and n > 0):
        e += dn * v * f_ln(x)
    return v, e


class DVal(Val):
    """reals and duals; the environment binds variables to reals or (value, eps) pairs"""

    def isdual(self, t):
        try:
            self.dual(t)
            return True
        except Unk:
            return False
        except Und:
            return True

    def dual(self, t):
        if t in self.env:
            v = self.env[t]
            if isinstance(v, tuple):
                return v
            raise Unk("not a dual")
        k = t[0]
        if k == "adt" and t[1] == DUAL:
            d = dict(zip(t[3], t[4]))
            return self.f(d["val"]), self.f(d["eps"])
        if k == "adt" and t[1].endswith("PyDual"):
            return self.dual(t[4][0])
        if k == "app" and t[1].endswith("::PyDual") and len(t) == 3:
            return self.dual(t[2])
        if k == "adt" and t[1].endswith(("Option", "Result")) and t[2] in ("Some", "Ok"):
            return self.dual(t[4][0])
        if k == "fld" and t[2] == "" and t[3] == "0":
            return self.dual(t[1])
        if k == "fld" and t[2] in ("Some", "Ok"):
            x = t[1]
            if x[0] == "adt":
                return self.dual(x[4][0])
            if x[0] == "app" and x[1].startswith("extract:") and "PyDual" in x[1]:
                return self.env["operand"]
        if k == "with":
            fs = dict((x[0][1], x[1]) for x in t[2] if x[0][0] == "f")
            if len(fs) == len(t[2]) and set(fs) <= {"val", "eps"}:
                v, e = self.dual(t[1])
                return self.f(fs["val"]) if "val" in fs else v, self.f(fs["eps"]) if "eps" in fs else e
        if k in ("f", "i"):
            return self.f(t), mpf(0)
        if k == "op":
            o, a = t[1], t[2:]
            if o == "pow":
                (x, dx), (n, dn) = self.both(a[0]), self.both(a[1])
                return power(x, dx, n, dn)
            if o in STEP and len(a) == 1 and self.isdual(a[0]):
                return STEP[o](self.dual(a[0])[0]), mpf(0)
            if o in ("frem", "rem"):
                return rem(self.dual(a[0])[0], self.dual(a[1])[0]), mpf(0)
            f = F1.get(o) if len(a) == 1 else F2.get(o)
            if f and any(self.isdual(x) for x in a):
                vs, es = zip(*(self.both(x) for x in a))
                return lift(o, f, vs, es)
        raise Unk(f"dual {str(t)[:60]}")

    def both(self, t):
        try:
            return self.dual(t)
        except Unk:
            return self.f(t), mpf(0)

    def _f(self, t):
        if t[0] == "app" and "FloatConst::" in t[1] and t[1].rsplit("::", 1)[1] in CONSTANTS:
            return CONSTANTS[t[1].rsplit("::", 1)[1]]() + mpf(0)
        if t[0] == "fld" and t[2] == "" and t[3] in ("val", "eps"):
            v, e = self.dual(t[1])
            return v if t[3] == "val" else e
        if t[0] == "fld" and t[2] == "Ok" and t[1][0] == "app" and t[1][1].startswith("extract:"):
            x = self.env["operand"]
            if isinstance(x, tuple):
                raise Unk("operand")
            return x
        return super()._f(t)


def pc_holds(v, pc, kind):
    for a, x in pc.items():
        if a[0] == "is" and a[1][0] == "app" and a[1][1].startswith("extract:"):
            ty = a[1][1][8:]
            ok = kind == "dual" if "PyDual" in ty else kind in ("float", "int") if ty in ("f64", "f32") else kind == "int" if re.fullmatch(r"[iu]\d+|[iu]size", ty) else None
            if ok is None:
                raise Unk(f"extract {ty}")
            r = "Ok" if ok else "Err"
            if (r in x[1]) if isinstance(x, tuple) and x[0] == "not" else r != x:
                return False
            continue
        try:
            r = p06.cond(v, a)
        except Und:
            r = False
        if r != x:
            return False
    return True


def bodies(prog):
    out = []
    for b in prog.fns():
        if "::tests::" in b.name or "{closure" in b.name:
            continue
        if b.name.startswith(f"<{DUAL}<T> as ") or b.name.startswith(f"{DUAL}::"):
            out.append((b, b.name.rsplit("::", 1)[1], False))
        elif b.name.startswith("bindings::python::dual::PyDual::"):
            out.append((b, b.name.rsplit("::", 1)[1], True))
    return out


PYOP = {"__add__": "add", "__sub__": "sub", "__mul__": "mul", "__truediv__": "div", "__pow__": "pow", "__neg__": "neg", "__abs__": "abs", "__mod__": "rem"}


def spec(b, nm):
    """(meaning, operand names in order, kind) or None"""
    rev = False
    m = nm
    if nm.endswith("_assign"):
        m = nm[:-7]
    if nm.startswith("__r") and "__" + nm[3:] in PYOP:
        rev, m = True, "__" + nm[3:]
    m = PYOP.get(m, m)
    if m in F1 or m in STEP:
        return m, 1, False
    if m in F2 or m in ("pow", "powf", "powi", "rem"):
        return ("pow" if m in ("powf", "powi") else m), 2, rev
    if m in ORD:
        return m, 2, False
    if m == "mul_add":
        return m, 3, False
    return None


def explore(prog, K, b):
    models = {k: p06.kmodel(k) for k in K}
    ex = lambda I_, st, args, r, d, tys: ("app", "extract:" + r["targs"][-1], I_.deep(st, args[0]))
    for n in ("pyo3::types::PyAnyMethods::extract", "<pyo3::Bound<'py, pyo3::PyAny> as pyo3::types::PyAnyMethods<'py>>::extract"):
        models[n] = ex
    it = Interp(prog, models=models, max_outs=300)
    st = State()
    av, ref0 = [], None
    for i in range(b.nargs):
        t, x = b.locals[i + 1], ("var", f"a{i}")
        if t.startswith("&"):
            st.mem[("H", f"a{i}")] = x
            av.append(("ptr", ("H", f"a{i}"), (), t.startswith("&mut")))
            if t.startswith("&mut"):
                ref0 = ("H", f"a{i}")
        else:
            av.append(x)
    outs = it.run(st, b, av)
    return it, [(o.kind, o.st.pc, it.deep(o.st, o.st.mem[ref0]) if ref0 and o.kind == "ret" else it.deep(o.st, o.val) if o.kind == "ret" else None) for o in outs]


def samples(m, n, types):
    xs = [mpf(x) for x in XS]
    if m in ORD:
        for o in ORD[m][1]:
            for x in xs:
                yield ((x, mpf("1.4")), mpf(o))
        return
    if m == "pow":
        if types[1] == "i32":
            for o in (0, 1, 2, 3, -1, -2, 5):
                for x in xs + [mpf(0)]:
                    yield ((x, mpf("1.4")), mpf(o))
            return
        for x, n_ in [(x, n_) for x in xs + [mpf(0)] for n_ in (2, 3, 1, 0, -1, mpf("0.5"), mpf("2.7"), mpf("-1.3"))]:
            yield ((x, mpf("1.4")), (mpf(n_), mpf(0)))
            yield ((x, mpf("1.4")), (mpf(n_), mpf("-0.6")))
            yield ((x, mpf(0)), (mpf(n_), mpf("-0.6")))
        return
    for i, x in enumerate(xs):
        if n == 1:
            yield ((x, mpf("1.4")),)
            if i == 0 and m not in ("abs", "cbrt", "sqrt") and m not in STEP:
                for y in (mpf(0), mpf(10) ** -12, -mpf(10) ** -17):
                    yield ((y, mpf("1.4")),)
        else:
            for j in (1, 3, 4):
                ys = tuple((xs[(i * (2 + k) + j + k) % len(xs)], mpf(3 * k - 5) / 4) for k in range(n - 1))
                if m in ("max", "min", "abs_sub") and any(y[0] == x for y in ys):
                    continue
                yield ((x, mpf("1.4")),) + ys


def want_of(m, args):
    vs = [a[0] if isinstance(a, tuple) else a for a in args]
    es = [a[1] if isinstance(a, tuple) else mpf(0) for a in args]
    if m in STEP:
        if m == "round" and vs[0] - mpf("0.5") == mpmath.floor(vs[0]):
            raise Und()
        return STEP[m](vs[0]), mpf(0)
    if m == "pow":
        return power(vs[0], es[0], vs[1], es[1])
    if m == "rem":
        return rem(*vs), None
    if m in ORD:
        n = vs[1]
        return lift(m, lambda x: FN[ORD[m][0]](n, x), vs[:1], es[:1])
    if m == "mul_add":
        return lift(m, lambda x, y, z: x * y + z, vs, es)
    return lift(m, F1[m] if len(vs) == 1 else F2[m], vs, es)


def run(prog, rep):
    K = {k for k in p06.kernels(prog) if DUAL not in k}
    bs = bodies(prog)
    rep.floor("methods of dual numbers", len(bs), 100)
    for b, nm, py in bs:
        key = ("py:" if py else "") + (b.name.split(" as ")[1].split("::")[-2].rstrip(">") + "::" if " as " in b.name else "") + nm
        sp = spec(b, nm)
        if sp is None:
            if not other(prog, rep, K, b, nm, key):
                rep.notes.setdefault("not about value and derivative", []).append(key)
            continue
        m, n, rev = sp
        types = [b.locals[i + 1] for i in range(b.nargs)]
        try:
            it, outs = explore(prog, K, b)
        except Give as g:
            rep.undec(key, str(g))
            continue
        rep.functions |= it.called | {b.name}
        judge(rep, b, key, m, n, rev, types, outs)


def judge(rep, b, key, m, n, rev, types, outs):
    bad, good, why = {}, 0, None
    anyarg = any("PyAny" in t for t in types)
    for args in samples(m, n, types):
        for kind in (("dual", "float", "int") if anyarg else ("dual",)):
            a = list(args)
            if anyarg:
                x = a[1][0] if isinstance(a[1], tuple) else a[1]
                if kind == "int":
                    if x != int(x):
                        x = mpf(3 if x > 0 else -2)
                a[1] = (x, a[1][1] if kind == "dual" and isinstance(a[1], tuple) else mpf(0))
                if rev and kind == "dual":
                    continue
            elif len(a) > 1 and not any(w in types[1] for w in ("Dual", "PyAny")) and isinstance(a[1], tuple):
                a[1] = a[1][0]
            ref = a if not rev else [a[1], a[0]]
            try:
                want = want_of(m, ref)
                if max(abs(den._real(want[0])), abs(want[1] or 0)) > 10 ** 6:
                    continue
            except Und:
                try:
                    (FN[ORD[m][0]](ref[1], ref[0][0]) if m in ORD else F1[m](ref[0][0]) if m in F1 else 0 / 0)
                    continue
                except Und:
                    want = None
                except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence, TypeError):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence, TypeError):
                continue
            env = {("var", f"a{i}"): x for i, x in enumerate(a)}
            if anyarg:
                env["operand"] = a[1] if kind == "dual" else a[1][0]
                env.pop(("var", "a1"))
            hit = False
            for k, pc, t in outs:
                v = DVal({}, dict(env))
                try:
                    if not pc_holds(v, pc, kind):
                        continue
                    hit = True
                    if k != "ret":
                        got = None
                    elif t[0] == "adt" and t[2] in ("None", "Err"):
                        got = None
                    else:
                        got = v.dual(t)
                except Und:
                    got = None
                except (Unk, RecursionError, TypeError) as u:
                    why = str(u)
                    continue
                except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence) as u:
                    why = str(u)
                    continue
                tol = mpf(10) ** -9 if m not in ("elliptic_k", "elliptic_e") else mpf(10) ** -6
                if want is None:
                    if got is not None:
                        bad.setdefault("domain", (a, kind, want, got))
                    else:
                        good += 1
                elif got is None:
                    bad.setdefault("undefined", (a, kind, want, got))
                elif not close(got[0], want[0], tol):
                    bad.setdefault("value", (a, kind, want, got))
                elif want[1] is not None and not close(got[1], want[1], tol):
                    bad.setdefault("derivative", (a, kind, want, got))
                else:
                    good += 1
    sh = lambda x: "undefined" if x is None else mpmath.nstr(x, 8) if not isinstance(x, tuple) else f"{sh(x[0])} + {sh(x[1]) if x[1] is not None else '?'} eps"
    for kd, (a, kind, want, got) in sorted(bad.items()):
        rep.violate(f"{key}:{kd}", b.name, f"{b.name.split('::')[-1]}({', '.join(map(sh, a))}){' with an operand of kind ' + kind if 'py:' in key and len(a) > 1 else ''} is {sh(got)} instead of {sh(want)}")
    if not bad:
        if good:
            rep.ok(f"{key}: {good} points")
        else:
            rep.undec(key, why or "no point")


CONSTANTS = {"E": lambda: mpmath.e, "FRAC_1_PI": lambda: 1 / mpmath.pi, "FRAC_1_SQRT_2": lambda: 1 / mpmath.sqrt(2), "FRAC_2_PI": lambda: 2 / mpmath.pi,
             "FRAC_2_SQRT_PI": lambda: 2 / mpmath.sqrt(mpmath.pi), "FRAC_PI_2": lambda: mpmath.pi / 2, "FRAC_PI_3": lambda: mpmath.pi / 3, "FRAC_PI_4": lambda: mpmath.pi / 4,
             "FRAC_PI_6": lambda: mpmath.pi / 6, "FRAC_PI_8": lambda: mpmath.pi / 8, "LN_10": lambda: mpmath.log(10), "LN_2": lambda: mpmath.log(2),
             "LOG10_2": lambda: mpmath.log10(2), "LOG10_E": lambda: mpmath.log10(mpmath.e), "LOG2_10": lambda: mpmath.log(10, 2), "LOG2_E": lambda: 1 / mpmath.log(2),
             "PI": lambda: mpmath.pi, "SQRT_2": lambda: mpmath.sqrt(2), "zero": lambda: mpf(0), "one": lambda: mpf(1)}


def other(prog, rep, K, b, nm, key):
    """constants, conversions and tests"""
    if nm not in CONSTANTS and nm not in ("constant", "new", "val", "eps", "from", "from_f64", "from_i64", "from_u64", "to_f64", "sin_cos", "is_zero", "is_positive", "is_negative"):
        return False
    try:
        it, outs = explore(prog, K, b)
    except Give as g:
        rep.undec(key, str(g))
        return True
    rep.functions |= it.called | {b.name}
    good, why = 0, None
    for x in (mpf("1.7"), mpf("-0.6"), mpf(0)):
        d = (x, mpf("1.4"))
        e = mpf("-2.25")
        env = {("var", "a0"): d if "Dual" in b.locals[1] and b.nargs else x, ("var", "a1"): e}
        want = {"constant": (x, mpf(0)), "from": (x, mpf(0)), "from_f64": (x, mpf(0)), "from_i64": (x, mpf(0)), "from_u64": (x, mpf(0)), "new": (x, e), "val": x, "eps": mpf("1.4"), "to_f64": x,
                "is_zero": x == 0, "is_positive": x > 0, "is_negative": x < 0}.get(nm)
        if nm in CONSTANTS:
            want = (CONSTANTS[nm](), mpf(0))
        if nm == "is_zero":
            env[("var", "a0")] = (x, mpf(0) if x == 0 else mpf(1))
        for k, pc, t in outs:
            v = DVal({}, dict(env))
            try:
                if k != "ret" or not pc_holds(v, pc, "dual"):
                    continue
                if nm == "sin_cos":
                    if t[0] != "tup":
                        raise Unk("pair")
                    got = v.dual(t[1][0]) + v.dual(t[1][1])
                    want = (mpmath.sin(x), mpmath.cos(x) * d[1], mpmath.cos(x), -mpmath.sin(x) * d[1])
                elif isinstance(want, bool):
                    got = t[1] if t[0] == "b" else v.cond(t)
                elif isinstance(want, tuple):
                    got = v.dual(t)
                else:
                    if t[0] == "adt" and t[2] in ("Some",):
                        t = t[4][0]
                    elif t[0] == "app" and "to_f64" in t[1]:
                        t = t[2]
                    got = v.f(t)
            except (Unk, Und, TypeError) as u:
                why = str(u)
                continue
            ok = got == want if isinstance(want, bool) else all(close(p, q, mpf(10) ** -12) for p, q in zip(got, want)) if isinstance(want, tuple) else close(got, want, mpf(10) ** -12)
            if not ok:
                rep.violate(f"{key}:value", b.name, f"{nm} of {mpmath.nstr(x, 5)} is {got} instead of {want}")
                return True
            good += 1
    if good:
        rep.ok(f"{key}: {good}")
    else:
        rep.undec(key, why or "no path")
    return True
