"""P07: the derivative rule of every built-in function is the derivative of that function."""
from sx import *
import sx, den
from den import Val, FN, ORDERS, Und, Unk, mpf, mp, mpmath, close

RULE = ("The table of built-in functions is read off the interpreted constructor of the registry. The derivative rule of every entry is "
        "interpreted abstractly (expression constructors are free symbols), which gives a closed form in the arguments u_i and their "
        "derivatives u_i'. It must be identical to sum_i d f/d u_i * u_i' wherever f is differentiable; two closed forms are told apart "
        "at exact sample points of every branch of the domain (integer orders are held constant).")


def registry(prog):
    """[(name, arity range, eval closure, derivative closure)]"""
    out = []
    for b in prog.fns():
        if b.nargs == 0 and "FunctionDefinition" in b.locals[0] and "Vec" in b.locals[0]:
            it = Interp(prog)
            st = State()
            for o in it.run(st, b, []):
                v = it.deep(o.st, o.val)
                if v[0] != "arr":
                    continue
                for d in v[1]:
                    if d[0] != "adt":
                        continue
                    f = dict(zip(d[3], d[4]))
                    ar = f.get("arity")
                    lo = hi = None
                    if ar and ar[0] == "adt":
                        a = dict(zip(ar[3], ar[4]))
                        lo, hi = a["start"][1], a["end"][1]
                    if f["name"][0] == "s":
                        out.append((f["name"][1], (lo, hi), f["eval"], f["derivative"]))
    return out


CONT = ["0.3", "-0.7", "1.7", "-2.3", "5.6", "0.05", "-0.2"]
ORD = {1: [(0,), (1,), (2,), (3,)], 2: [(2, 0), (2, 1), (3, 1), (3, 2), (4, 2), (2, -1), (3, -2), (2, 2)]}


def points(name, n):
    k = ORDERS.get(name, 0)
    conts = [mpf(c) for c in CONT]
    m = n - k
    if m == 1:
        cs = [(c,) for c in conts]
    else:
        cs = [tuple(conts[(i * (j + 1) + 2 * j) % len(conts)] for j in range(m)) for i in range(len(conts))]
    if not k:
        return cs
    return [tuple(mpf(o) for o in os) + c for os in ORD[k] for c in cs]


def partial(f, pt, i):
    def g(t):
        q = list(pt)
        q[i] = t
        return f(*q)
    with mp.workdps(60):
        h = mpf(10) ** -12
        # six-point central difference, error O(h^6)
        v = [g(pt[i] + k * h) for k in (-3, -2, -1, 1, 2, 3)]
        return (-v[0] + 9 * v[1] - 45 * v[2] + 45 * v[3] - 9 * v[4] + v[5]) / (60 * h)


def run(prog, rep):
    names = den.known_names(prog)
    rep.floor("known symbols", len(names), 40)
    reg = registry(prog)
    rep.floor("registry entries", len(reg), 40)
    models = den.build_models(prog)
    for name, ar, ev_, dv in reg:
        if name not in FN:
            rep.undec(name, "no independent definition of this function")
            continue
        n = den.arity(name)
        if ar[0] is None or not ar[0] <= n <= ar[1]:
            rep.undec(name, f"arity {ar}")
            continue
        it = Interp(prog, models=models, max_outs=200)
        st = State()
        us, ps = [("var", f"u{i}") for i in range(n)], [("var", f"d{i}") for i in range(n)]
        try:
            st.mem[("H", "args")] = ("arr", tuple(us))
            st.mem[("H", "primes")] = ("arr", tuple(ps))
            outs = it.apply(st, dv, [("ptr", ("H", "args"), (), False), ("ptr", ("H", "primes"), (), False)], 0)
        except Give as g:
            rep.undec(name, str(g))
            continue
        rep.functions |= it.called
        terms = [(o, it.deep(o, v)) for o, v in outs]
        k = ORDERS.get(name, 0)
        groups = {}
        for pt in points(name, n):
            groups.setdefault(pt[:k], []).append(pt)
        for order, pts in groups.items():
            decide(rep, names, name, n, dv, us, ps, terms, order, pts)


def decide(rep, names, name, n, dv, us, ps, terms, order, pts):
    bad, good, why = {}, 0, None
    k = len(order)
    for pt in pts:
        try:
            dom = FN[name](*pt)
            grads = [mpf(0) if i < k else partial(lambda *a: den._real(FN[name](*a)), pt, i) for i in range(n)]
            den._real(dom)
        except (Und, ValueError, ZeroDivisionError, mpmath.libmp.NoConvergence):
            continue
        prim = [mpf(0) if i < k else mpf(7 + 4 * i) / 5 for i in range(n)]
        want = sum((g * p for g, p in zip(grads, prim)), mpf(0))
        for o, t in terms:
            env = {u: x for u, x in zip(us, pt)}
            env.update({p: x for p, x in zip(ps, prim)})
            v = Val(names, env)
            try:
                if not all(holds(v, a, x) for a, x in o.pc.items()):
                    continue
                got = v.e(t)
            except Und:
                got = None
            except Unk as u:
                why = str(u)
                continue
            if got is None or not close(got, want, mpf(10) ** -10):
                bad.setdefault("undefined" if got is None else "value", (pt, want, got))
                continue
            good += 1
    key = f"derivative:{name}" + (":order " + ",".join(str(int(x)) for x in order) if k else "")
    for kind, (pt, want, got) in sorted(bad.items()):
        rep.violate(f"{key}:{kind}", dv[1], f"the derivative rule of {name} is not its derivative: at ({', '.join(mpmath.nstr(x, 6) for x in pt)}) "
                    f"the rule gives {mpmath.nstr(got, 8) if got is not None else 'no real value'}, the derivative is {mpmath.nstr(want, 8)}")
    if bad:
        pass
    elif good:
        rep.ok(f"{name}{list(map(int, order)) if k else ''}: rule = derivative at {good} points")
    else:
        rep.undec(name, why or "no point of the domain could be evaluated")


def holds(v, a, x):
    try:
        r = v.cond(a)
    except Und:
        r = False
    return r == x
