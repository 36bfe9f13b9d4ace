"""P06: every built-in function of the function table denotes the function it is named after."""
from sx import *
from models import v0
import sx, den, fw, p07
from den import Val, FN, ORDERS, Und, Unk, mpf, mp, mpmath, close

RULE = ("The table of built-in functions is read off the interpreted constructor of the registry. The evaluation rule of every entry is "
        "interpreted abstractly into a closed form per path (once with the numeric kernels as named functions, and once with the kernel "
        "the entry calls replaced by its own body). Each path must agree with the definition of the function wherever its path condition "
        "holds, a path without a value may be taken only where the function is undefined, and the declared arity must be the arity of "
        "the function. The tables of names (operator of a name, name of an operator, constants by name and by id) are interpreted and "
        "must be consistent with the function table.")

XS = ["0.3", "-0.7", "1.7", "-2.3", "5.6", "0.05", "-0.2", "12.5", "-12.5", "30.25", "0.96", "-0.96", "0", "1", "-1", "2", "-2", "3",
      "1e-12", "-1e-12", "1e-6", "50.5", "2.1", "0.7", "1.2", "7.5", "18.3", "3.9", "-0.3665", "9.5", "-40.3"]
ORD = {1: [(n,) for n in range(0, 7)] + [(-1,), (-2,), (12,)],
       2: [(l, m) for l in range(0, 5) for m in range(-l, l + 1)] + [(2, 3), (-1, 0)]}


DEBUG = False


def kernels(prog):
    return {b.name for b in prog.fns() if b.name.split("::")[-1] in den.KERNEL and "math" in b.name.split("::")}


def kmodel(nm):
    return lambda I_, st, args, r, d, tys: ("app", nm) + tuple(I_.deep(st, a) for a in args)


def sample(name):
    n, k = den.arity(name), ORDERS.get(name, 0)
    xs = [mpf(x) for x in XS]
    m = n - k
    if m == 1:
        cs = [(x,) for x in xs]
    else:
        L = len(xs)
        cs = [tuple(xs[(i * (1 + 4 * j) + s * j + 3 * j) % L] for j in range(m)) for i in range(L) for s in (0, 1, 5)]
    return [tuple(map(mpf, o)) + c for o in (ORD[k] if k else [()]) for c in cs]


def true(name, pt):
    """value of the function, None where it is undefined, Ellipsis where the definition here does not decide"""
    try:
        if name in ("signum", "sign", "sgn") and pt[-1] == 0:
            return ...
        if name == "round" and (pt[0] - mpf("0.5")) == mpmath.floor(pt[0]):
            return ...
        if name == "exp_polar":
            return mpmath.exp(pt[0])
        return den._real(FN[name](*pt))
    except Und:
        return None
    except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence, NotImplementedError):
        return ...


def cond(v, a):
    """value of a path condition; results of kernels are Some exactly where the kernel is defined"""
    if a[0] == "is" and a[1][0] == "app" and "ToPrimitive::to_" in a[1][1]:
        return "Some"
    if a[0] == "is" and a[1][0] == "app":
        nm = den.KERNEL.get(a[1][1].split("::")[-1])
        if nm:
            try:
                v.call(nm, [v.f(x) for x in a[1][2:]])
                return "Some"
            except Und:
                return "None"
    return v.cond(a)


def has_loop(t):
    return any(x[0] in ("loop", "hof") for x in den.walk(t))


def run(prog, rep):
    reg = p07.registry(prog)
    rep.floor("registry entries", len(reg), 40)
    K = kernels(prog)
    rep.floor("numeric kernels", len(K), 12)
    seen, jobs = {}, []
    for name, ar, ev, dv in reg:
        if name in seen:
            rep.violate(f"duplicate:{name}", ev[1], f"the function table defines {name} twice")
        seen[name] = 1
        if name not in FN:
            rep.undec(name, "no independent definition of this function")
            continue
        n = den.arity(name)
        if ar[0] is None:
            rep.undec(name, "arity not read")
        else:
            rep.check(ar == (n, n), f"arity:{name}", ev[1], f"{name} is declared with {ar[0]}..={ar[1]} arguments but takes {n}",
                      f"{name}: arity {n}")
        jobs.append(lambda sub, name=name, n=n, ev=ev: entry(prog, sub, K, name, n, ev))
    fw.parallel(rep, jobs)
    tables(prog, rep, [r[0] for r in reg])


def entry(prog, rep, K, name, n, ev):
    for k in sorted(decide(prog, rep, K, name, n, ev, "")):
        decide(prog, rep, K - {k}, name, n, ev, k)


def decide(prog, rep, K, name, n, ev, inside):
    key = f"eval:{name}" + (f":{inside.split('::')[-1]}" if inside else "")
    us = [("var", f"u{i}") for i in range(n)]
    it = Interp(prog, models={k: kmodel(k) for k in K}, max_outs=600, max_steps=400000)
    st = State()
    st.mem[("H", "args")] = ("arr", tuple(us))
    try:
        outs = it.apply(st, ev, [("ptr", ("H", "args"), (), False)], 0)
    except Give as g:
        rep.undec(key, str(g)) if not inside else rep.notes.setdefault("kernels not reduced", []).append(f"{key}: {g}")
        return set()
    rep.functions |= it.called
    paths = [(o, it.deep(o, v)) for o, v in outs]
    used = set()
    for o, v in paths:
        for x in den.walk((v, tuple(o.pc))):
            if x[0] == "app" and len(x) > 1 and x[1] in K:
                used.add(x[1])
    bad, good, skipped, why = {}, 0, [], None
    tol = mpf(10) ** (-6 if inside else -10)
    for pt in sample(name):
        want = true(name, pt)
        if want is ... or (want is not None and abs(want) > mpf(10) ** 60):
            continue
        near = abs(pt[-1]) < mpf(10) ** (-3 if name == "zeta_deriv" else -9)
        for o, t in paths:
            v = Val({}, dict(zip(us, pt)))
            try:
                ok = True
                for a, x in o.pc.items():
                    try:
                        r = cond(v, a)
                    except Und:
                        r = False
                    if r != x:
                        ok = False
                        break
                if not ok:
                    continue
                if t[0] == "app" and den.KERNEL.get(t[1].split("::")[-1]):
                    got = v.call(den.KERNEL[t[1].split("::")[-1]], [v.f(x) for x in t[2:]])
                elif t[0] != "adt":
                    raise Unk(f"value is not an option: {t[:2]}")
                else:
                    got = v.f(t[4][0]) if t[2] == "Some" else None
            except Und:
                got = None
            except (Unk, RecursionError, ZeroDivisionError, ValueError, OverflowError) as u:
                why = str(u)
                skipped.append((pt, why))
                continue
            if want is None:
                if got is not None:
                    bad.setdefault("domain", (pt, want, got))
                else:
                    good += 1
            elif near and inside and name == "zeta_deriv":
                continue        # numerical differentiation next to the pole of zeta(1 - s)
            elif got is None:
                if near:
                    continue        # a guard band around a singular point
                bad.setdefault("undefined", (pt, want, got))
            elif not (close(got, want, tol) or inside and close(got, want, mpf("3e-6"))):
                bad.setdefault("value", (pt, want, got))
            else:
                good += 1
    for kind, (pt, want, got) in sorted(bad.items()):
        sh = lambda x: "no value" if x is None else mpmath.nstr(x, 10)
        rep.violate(f"{key}:{kind}", ev[1], f"{name}({', '.join(mpmath.nstr(x, 6) for x in pt)}) evaluates to {sh(got)}, the function has {sh(want)} there")
    if DEBUG and skipped:
        print("SKIP", key, len(skipped), good, [mpmath.nstr(x, 5) for x in skipped[0][0]], skipped[0][1][:80])
    if not bad:
        if good:
            rep.ok(f"{key}: agrees at {good} points of {len(paths)} paths")
        elif inside:
            rep.notes.setdefault("kernels not reduced", []).append(f"{key}: kernel body not reduced to a closed form ({why})")
        else:
            rep.undec(key, why or "no point could be evaluated")
    return used if not inside else set()


ALIAS = {"sen": "sin", "sign": "signum", "sgn": "signum", "spherical_harmonic": "ynm"}


def canon_name(s):
    return ALIAS.get(s, s)


def byname(prog, suffix):
    bs = [b for b in prog.fns() if b.name.endswith(suffix)]
    return bs[0] if len(bs) == 1 else None


def single(prog, rep, b, args):
    """the value of a function on the given arguments, when it has one path"""
    it = Interp(prog, max_outs=300)
    st = State()
    outs = it.run(st, b, args)
    rep.functions |= it.called | {b.name}
    return [(o, it.deep(o.st, o.val)) for o in outs]


def builtin_lists(prog):
    """constant tables of names in the lexer"""
    for b in prog.bodies.values() if isinstance(prog.bodies, dict) else prog.bodies:
        if b.nargs == 0 and "parser" in b.name and b.locals and b.locals[0].endswith("[&str]") and "promoted" not in b.name:
            it = Interp(prog)
            st = State()
            try:
                for o in it.run(st, b, []):
                    v = it.deep(o.st, o.val)
                    v = v0(it, o.st, v)
                    if v[0] == "arr":
                        yield b.name, [x[1] for x in v[1] if x[0] == "s"]
            except Give:
                pass


def tables(prog, rep, names):
    ps, tn = byname(prog, "Operator::parse_str"), byname(prog, "Operator::to_name")
    lists = [x for x in builtin_lists(prog) if len(set(x[1]) & set(names)) > 20]
    blt = lists[0][1] if len(lists) == 1 else None
    if not ps or not tn:
        rep.undec("operator names", "Operator::parse_str / to_name not found")
        return
    if blt is None:
        rep.undec("lexer names", "table of built-in names of the lexer not found")
    ar = ARITHMETIC
    known = sorted(set(names) | set(blt or ()) | set(ALIAS)) + sorted(ar)
    for s in known:
        try:
            r = single(prog, rep, ps, [("s", s)])
        except Give as g:
            rep.undec(f"name:{s}", str(g))
            continue
        if len(r) != 1 or r[0][1][0] != "adt":
            rep.undec(f"name:{s}", "more than one outcome")
            continue
        v = r[0][1]
        if v[2] != "Some":
            rep.violate(f"name:{s}:unknown", ps.name, f"the name {s} of a built-in is not recognised as an operator")
            continue
        st = State()
        st.mem[("H", "op")] = v[4][0]
        it = Interp(prog)
        o = it.run(st, tn, [("ptr", ("H", "op"), (), False)])
        nm = [it.deep(x.st, x.val) for x in o]
        if len(nm) != 1 or nm[0][0] != "s":
            rep.undec(f"name:{s}", "canonical name not read")
            continue
        want = canon_name(s) if s not in ar else ar[s]
        got = canon_name(nm[0][1])
        rep.check(got == want, f"name:{s}", ps.name, f"the name {s} is recognised as the operator named {nm[0][1]}", f"name {s} -> {nm[0][1]}")
    if blt is not None:
        for s in names:
            rep.check(s in blt, f"lexer:{s}", lists[0][0], f"the built-in function {s} is missing from the table of names of the lexer: it cannot be parsed",
                      f"lexer knows {s}")
        for s in blt:
            if s in FN or s in ALIAS:
                rep.check(s in names or canon_name(s) in names, f"lexer:{s}:undefined", lists[0][0],
                          f"the lexer recognises {s} as a built-in function but the function table has no such function", f"{s} is in the function table")
    constants(prog, rep)


ARITHMETIC = {"+": "+", "-": "-", "*": "*", "/": "/", "^": "^", "**": "^"}


def constants(prog, rep):
    kn = den.known_names(prog)
    fs = {x: byname(prog, "::" + x) for x in ("is_known_constant", "get_constant_value", "is_known_constant_by_id", "get_constant_value_by_id")}
    if not all(fs.values()):
        rep.undec("constants", "the functions of the constants were not found")
        return
    where = fs["get_constant_value"].name
    others = ["x", "y", "Pi2", "sin", "exp", "k", "pI", "i", "ee", ""]
    for s in list(den.CONSTS) + others:
        want = den.CONSTS[s]() if s in den.CONSTS else None
        rs = {}
        for nm, b in fs.items():
            rs[nm] = None
            if "by_id" in nm:
                f = [k for k, v in kn.items() if v == s]
                arg = ("fld", ("static", "core::known_symbols::KS"), "", f[0]) if f else ("var", "id:" + s)
            else:
                arg = ("s", s)
            try:
                outs = single(prog, rep, b, [arg])
            except Give as g:
                rep.undec(f"constant:{s}", str(g))
                continue
            for o, v in outs:
                ok = True
                for a, x in o.st.pc.items():
                    if a[0] == "op" and a[1] == "eq" and arg in a[2:]:
                        ok = ok and x == (a[2] == a[3] or same_name(kn, a[2], a[3]))
                if ok:
                    rs[nm] = v
        for nm in fs:
            v = rs[nm]
            if v is None:
                continue
            if nm.startswith("is"):
                bad = v[0] == "b" and v[1] != (want is not None)
                got = str(v[1])
            else:
                bad = v[0] == "adt" and ((v[2] == "Some") != (want is not None) or v[2] == "Some" and v[4][0][0] == "f"
                                         and abs(mpf(float(v[4][0][1])) - (want or 0)) > mpf(10) ** -15)
                got = "no value" if v[0] != "adt" or v[2] == "None" else str(v[4][0][1])
            rep.check(not bad, f"constant:{s}:{nm}", fs[nm].name, f"{nm} answers {got} for the name {s!r}", f"{nm}({s!r})")


def same_name(kn, a, b):
    f = [kn.get(x[-1]) if x[0] == "fld" else x[1] for x in (a, b)]
    return f[0] is not None and f[0] == f[1]
