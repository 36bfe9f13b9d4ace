"""P12: polynomials compute polynomial algebra and keep their representation."""
import itertools
import random
import time
import fw
from sx import *
import sx, den, trees, polys, p10
from polys import PVal, OPS, MUT, mk, cs
from trees import show, value, Miss
from tmpl import expr, arr, V, EK, POLY
from den import mpf, Und, Unk

RULE = ("Every method of the polynomial type is interpreted abstractly on polynomials with given powers and opaque coefficients (calls of the other "
        "methods stand for the operation they must compute; loops without a bound are kept as their update equations). For coefficients that follow "
        "a path, the result must have exactly the coefficients of the operation in polynomial algebra, its powers must be distinct and ascending and no "
        "coefficient zero; a conversion from an expression must have the value of the expression.")
POW = [(), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (1, 3), (0, 1, 2), (1, 2, 4)]
COEF = [1.0, 2.0, -1.0, -2.0, 0.5, 3.0, -3.0, 1.5, 4.0, 1e-9, -1e-9, 1e-20, 1e6]
B, B2 = ("sym", "x"), ("sym", "y")


def poly(pre, pows, base="b"):
    return ("adt", POLY, "Polynomial", ("base", "terms"), (V(base), arr(*[("tup", (I(p), V(f"{pre}{p}"))) for p in pows])))


def cases():
    """(method, [(argument term, ..)], reference on resolved arguments, sort of the result)"""
    two = [(a, b) for a in POW if len(a) < 3 for b in POW if len(b) < 3] + [((0, 1, 2), (0, 1)), ((1, 2), (0, 1, 2)), ((0, 1, 2), (0, 1, 2))]
    one = [(poly("c", a),) for a in POW]
    for n in ("is_zero", "is_constant", "as_constant", "degree", "term_count", "leading_coeff", "first_coeff", "with_negated_first", "negate",
              "derivative", "make_monic", "base", "base_arc"):
        yield n, one, OPS[n][1], OPS[n][0]
    yield "scale", [(poly("c", a), V("k")) for a in POW], OPS["scale"][1], "poly"
    yield "coeff", [(poly("c", a), I(k)) for a in POW for k in (0, 1, 2, 5)], OPS["coeff"][1], "num"
    for n in ("add", "sub", "mul"):
        yield n, [(poly("c", a), poly("d", b)) for a, b in two], OPS[n][1], "poly"
    yield "div_rem", [(poly("c", a), poly("d", b)) for a in POW + [(0, 3), (0, 1, 2, 3)] for b in POW if len(b) < 3], None, "divrem"
    yield "gcd", [(poly("c", a), poly("d", b)) for a in POW[1:] + [(0, 1, 2, 3)] for b in POW if b], None, "gcd"
    yield "try_add_assign", [(poly("c", a), poly("d", b, bb)) for a, b in two for bb in ("b", "b2")], None, "tryadd"
    yield "add_term", [(poly("c", a), I(k), V("k")) for a in POW for k in (0, 1, 2, 3)], MUT["add_term"], "mut"
    yield "set_base", [(poly("c", a), V("b2")) for a in POW[:6]], MUT["set_base"], "mut"
    yield "with_base", [(poly("c", a), V("b2")) for a in POW[:6]], OPS["with_base"][1], "poly"
    yield "zero", [(V("b"),)], OPS["zero"][1], "poly"
    yield "constant", [(V("k"),)], OPS["constant"][1], "poly"
    yield "from_base", [(V("b"),)], OPS["from_base"][1], "poly"
    yield "term", [(V("b"), I(k), V("k")) for k in (0, 1, 2, 3)], OPS["term"][1], "poly"
    yield "to_expr", one, None, "expr"
    yield "to_expr_terms", one, None, "exprs"
    yield "term_to_expr", [(poly("c", (0, 1)), I(k), V("k")) for k in (0, 1, 2, 3)], None, "termexpr"


def atoms(t, acc):
    if t[0] == "var":
        acc.add(t)
    for x in t[1:]:
        if isinstance(x, tuple):
            for y in ([x] if x and isinstance(x[0], str) else x):
                if isinstance(y, tuple) and y:
                    atoms(y, acc) if isinstance(y[0], str) else [atoms(z, acc) for z in y if isinstance(z, tuple) and z]
    return acc


def terms_of(v, t):
    """terms of a returned polynomial as they are stored"""
    if t[0] == "adt" and t[1] == POLY:
        ts = v.res(dict(zip(t[3], t[4]))["terms"])
        return [(int(p), mpf(c)) for p, c in ts]
    return list(v.poly(t)[2])


def close(a, b):
    return a == b or abs(a - b) <= mpf(10) ** -10 * max(abs(a), abs(b))


def same(ts, want):
    d = cs(want)
    return sorted(p for p, _ in ts) == sorted(d) and all(close(c, d[p]) for p, c in ts)


def wf(ts):
    ps = [p for p, _ in ts]
    return ps == sorted(set(ps)) and all(c != 0 for _, c in ts)


def ptxt(p):
    return " + ".join(f"{float(c):g}*b^{k}" for k, c in p[2]) or "0"


def judge(prog, rep, names, allm, nm, args, ref, sort, samples=30):
    b = prog.get(f"{POLY}::{nm}")
    if b is None:
        return dict(nm=nm, n=0, unk={"no such method": 1}, bad=0)
    if b.nargs != len(args[0]):
        return dict(nm=nm, n=0, unk={"unexpected parameters": 1}, bad=0)
    models = {**allm, **polys.models(prog)}
    models.pop(b.name, None)
    for x in ("to_expr", "to_expr_terms", "term_to_expr"):
        models.pop(f"{POLY}::{x}", None)
    unk, n, nbad = {}, 0, 0
    hooks = {"prog": trees.Sums(prog, {**allm, **polys.models(prog)})}
    for ai, a in enumerate(args):
        it = Interp(prog, models=dict(models), max_outs=4000, max_steps=120000)
        it.unroll = 0 if sort in ("divrem", "gcd") else 10
        it.unroll_paths = 1500
        if sort in ("divrem", "gcd"):
            it.unroll, it.unroll_paths = 5, 40
        st = State()
        av = []
        for i, x in enumerate(a):
            if b.locals[i + 1].startswith("&"):
                st.mem[("H", f"a{i}")] = x
                av.append(("ptr", ("H", f"a{i}"), (), True))
            else:
                av.append(x)
        try:
            outs = [(o.kind, o.st.pc, it.deep(o.st, o.val) if o.kind == "ret" else None,
                     it.deep(o.st, o.st.mem[("H", "a0")]) if ("H", "a0") in o.st.mem else None) for o in it.run(st, b, av) if o.kind in ("ret", "panic")]
        except Give as g:
            unk[str(g)[:80]] = unk.get(str(g)[:80], 0) + 1
            continue
        rep.functions |= it.called | {b.name}
        rng = random.Random(ai * 7 + len(nm))
        vs = sorted({x for t in a for x in atoms(t, set())}, key=repr)
        for _ in range(samples):
            bind = {}
            for x in vs:
                if x[1] in ("b", "b2"):
                    bind[x] = B if x[1] == "b" or rng.random() < 0.3 else B2
                else:
                    old = [c for k, c in bind.items() if isinstance(c, mpf)]
                    r = rng.random()
                    bind[x] = -rng.choice(old) if old and r < 0.25 else rng.choice(old) if old and r < 0.4 else mpf(rng.choice([0.0] if r > 0.97 and x[1] == "k" else COEF[:9] if sort in ("divrem", "gcd") else COEF))
            v = PVal(names, bind, trees.POINTS[0], hooks)
            for k, c in bind.items():
                if isinstance(c, mpf):
                    v.env[k] = c
            hit, endless = None, False
            for o in outs:
                try:
                    if v.pc_holds(o[1]):
                        hit = o
                        break
                except polys.Endless:
                    endless = True
                    break
                except (Unk, Miss) as u:
                    unk[str(u)[:80]] = unk.get(str(u)[:80], 0) + 1
                    hit = None
                    break
            if hit is None and not endless:
                continue
            argv = []
            for t in a:
                try:
                    argv.append(v.res(t))
                except Unk:
                    argv.append(v.f(t))
            txt = ", ".join(ptxt(x) if isinstance(x, tuple) and x[0] == "poly" else show(x) if isinstance(x, tuple) else f"{float(x):g}" for x in argv)
            try:
                msg = "does not end" if endless else verdict(v, hit, argv, ref, sort)
            except polys.Endless:
                msg = "does not end"
            except (Unk, Miss) as u:
                unk[str(u)[:80]] = unk.get(str(u)[:80], 0) + 1
                continue
            n += 1
            if msg:
                rep.violate(f"{nm}", b.name, f"Polynomial::{nm}({txt}) {msg}")
                nbad += 1
                break
        if nbad:
            break
    return dict(nm=nm, n=n, unk=unk, bad=nbad)


def templates():
    a = V("a")
    ps = ("adt", POLY, "Polynomial", ("base", "terms"), (V("b"), V("terms")))
    return p10.templates() + [("Poly", expr("Poly", ps), ()), ("Derivative", expr("Derivative", a, V("dv"), V("dn"), names=("inner", "var", "order")), (a,))]


def convert(prog, rep, names, allm, key, e, leaves, samples=400):
    """the conversion of an expression: value and representation of the polynomial it gives"""
    b = prog.get(f"{POLY}::try_from_expr")
    if b is None:
        return dict(nm=f"try_from_expr {key}", n=0, unk={"no such method": 1}, bad=0)
    models = {**allm, **polys.models(prog)}
    it = Interp(prog, models=dict(models), max_outs=4000, max_steps=200000)
    it.unroll = 8
    st = State()
    st.mem[("H", "e")] = e
    unk, n = {}, 0
    try:
        outs = [(o.kind, o.st.pc, it.deep(o.st, o.val) if o.kind == "ret" else None) for o in it.run(st, b, [("ptr", ("H", "e"), (), False)]) if o.kind in ("ret", "panic")]
    except Give as g:
        return dict(nm=f"try_from_expr {key}", n=0, unk={str(g)[:80]: 1}, bad=0)
    rep.functions |= it.called | {b.name}
    shapes = lambda v, name: {"Sum": [("0", [2, 3])], "Product": [("0", [2, 3])], "FunctionCall": [("args", [1, 2])]}.get(name, [])
    hooks = {"prog": trees.Sums(prog, models, shapes)}
    rng = random.Random(len(key) * 31)
    for _ in range(samples):
        bind = {l: polys.pool(rng, 1 if key == "Pow" else 2) for l in leaves}
        if key == "Pow" and rng.random() < 0.2:
            bind = {V("a"): polys.pool(rng, 1), V("b"): ("num", rng.choice((5e9, 2.0, 4294967296.0)))}
        g = trees.Gen({}, rng, names)
        bind.update(p10.pick(key, len(leaves))(rng, g))
        if key == "Number":
            bind[V("n")] = mpf(rng.choice(COEF + [0.0]))
        if key == "Derivative":
            bind = {V("a"): ("fn", "f", (("sym", "x"),)), V("dv"): "x", V("dn"): mpf(1)}
        if key == "Poly":
            p = rng.choice((((0, 1.0), (1, 2.0)), ((1, -2.0), (2, 1.0)), ((0, 2.0), (1, -2.0), (3, 1e-9))))
            bind[V("b")], bind[V("terms")] = B, [(k, mpf(c)) for k, c in p]
        v = PVal(names, bind, trees.POINTS[0], hooks)
        for k, c in bind.items():
            if isinstance(c, (mpf, float)):
                v.env[k] = mpf(c)
        try:
            hit = [o for o in outs if v.pc_holds(o[1])]
            if not hit:
                continue
            if hit[0][0] == "panic":
                rep.violate("try_from_expr:panic", b.name, f"try_from_expr panics on {show(v.res(e))}")
                return dict(nm=f"try_from_expr {key}", n=n, unk=unk, bad=1)
            t = hit[0][2]
            if not v.variant_ok(t, "Some"):
                continue
            p = v.poly(t[4][0] if t[0] == "adt" else ("fld", t, "Some", "0"))
            tree = v.res(e)
            if p == ("poly", tree, ((1, mpf(1)),)):
                n += 1
                continue
            if not wf(list(p[2])):
                rep.violate("try_from_expr:form", b.name, f"try_from_expr({show(tree)}) does not keep the representation: {ptxt(p)}")
                return dict(nm=f"try_from_expr {key}", n=n, unk=unk, bad=1)
        except (Unk, Miss, Und) as u:
            unk[str(u)[:80]] = unk.get(str(u)[:80], 0) + 1
            continue
        for sv in trees.POINTS[:3]:
            try:
                w, x = value(tree, sv), value(p, sv)
            except (Und, Unk):
                continue
            if not p10.agree(x, w, True) and not p10.corner(tree, sv):
                rep.violate("try_from_expr:value", b.name, f"try_from_expr({show(tree)}) is {show(p)}: {float(x):g} instead of {float(w):g} at x={float(sv['x'])}, y={float(sv['y'])}")
                return dict(nm=f"try_from_expr {key}", n=n, unk=unk, bad=1)
            n += 1
    return dict(nm=f"try_from_expr {key}", n=n, unk=unk, bad=0)


def verdict(v, hit, argv, ref, sort):
    kind, pc, ret, mem = hit
    if kind == "panic":
        return "panics"
    if sort in ("poly", "mut"):
        want = ref(*argv)
        t = ret if sort == "poly" else mem
        ts = terms_of(v, t)
        if not same(ts, want):
            return f"has the terms {ptxt((0, 0, ts))} instead of {ptxt(want)}"
        if not wf(ts):
            return f"does not keep the representation (powers distinct and ascending, no zero coefficient): {[(p, float(c)) for p, c in ts]}"
        if want[2] and not polys.is_const(want) and v.poly(t)[1] != want[1]:
            return f"has the base {show(v.poly(t)[1])} instead of {show(want[1])}"
        return None
    if sort in ("num", "bool", "optf", "expr"):
        if ref is None:
            x = v.e(ret)
            w = value(argv[0], v.sv)
            return None if close(x, w) else f"has the value {float(x):g} instead of {float(w):g}"
        w = ref(*argv)
        if sort == "optf":
            if not v.variant_ok(ret, "None" if w is None else "Some"):
                return f"is {'Some' if w is None else 'None'}"
            return None if w is None or close(v.f(ret[4][0] if ret[0] == "adt" else ("fld", ret, "Some", "0")), w) else "has another value"
        x = v.cond(ret) if sort == "bool" else v.res(ret) if sort == "expr" else v.f(ret)
        return None if (x == w if sort != "num" else close(x, w)) else f"is {x if not isinstance(x, mpf) else float(x)} instead of {w if not isinstance(w, mpf) else float(w)}"
    if sort == "tryadd":
        r = v.cond(ret)
        p, q = argv
        if r and not polys.compat(p, q):
            return "merges polynomials in different bases"
        want = polys.r_add(p, q) if r else p
        ts = terms_of(v, mem)
        if not same(ts, want) or not wf(ts) or (not polys.is_const(want) and v.poly(mem)[1] != want[1]):
            return f"leaves {ptxt((0, 0, ts))} in {show(v.poly(mem)[1])} instead of {ptxt(want)} in {show(want[1])} (returning {r})"
        return None
    if sort == "divrem":
        if not argv[1][2]:
            return None if v.variant_ok(ret, "None") else "is Some for a zero divisor"
        if not v.variant_ok(ret, "Some"):
            return "is None"
        t = ret[4][0] if ret[0] == "adt" else ("fld", ret, "Some", "0")
        part = lambda i: t[1][i] if t[0] == "tup" else ("fld", t, "", str(i))
        q, r = v.poly(part(0)), v.poly(part(1))
        if r[2] and polys.deg(r) >= polys.deg(argv[1]) and polys.deg(argv[1]) > 0:
            return f"leaves the remainder {ptxt(r)} of a degree not below that of the divisor"
        back = polys.r_add(polys.r_mul(q, argv[1]), r)
        m = max([abs(c) for _, c in argv[0][2] + back[2]] or [0])
        for k in set(cs(back)) | set(cs(argv[0])):
            if abs(cs(back).get(k, 0) - cs(argv[0]).get(k, 0)) > mpf(10) ** -9 * m:
                return f"gives quotient {ptxt(q)} and remainder {ptxt(r)}, which do not make up the dividend"
        return None
    if sort == "gcd":
        if not v.variant_ok(ret, "Some"):
            return None
        g = v.poly(ret[4][0] if ret[0] == "adt" else ("fld", ret, "Some", "0"))
        if not g[2]:
            return "is zero"
        for p in argv:
            r = polys.r_divrem(p, g)[1]
            if any(abs(c) > mpf(10) ** -8 * max(abs(x) for _, x in p[2]) for _, c in r[2]):
                return f"is {ptxt(g)}, which does not divide {ptxt(p)}"
        return None
    if sort in ("expr", "exprs", "termexpr"):
        pts = trees.POINTS
        for sv in pts:
            w = v.with_point(sv)
            w.env.update({k: c for k, c in v.bind.items() if isinstance(c, mpf)})
            want = [mpf(c) * value(argv[0][1], sv) ** k for k, c in argv[0][2]] if sort != "termexpr" else [argv[2] * value(argv[0][1], sv) ** int(argv[1])]
            if sort == "exprs":
                got = [w.e(x) for x in w.seq(ret)]
                if len(got) != len(want) or not all(close(x, y) for x, y in zip(got, want)):
                    return "gives other terms"
            else:
                x, y = w.e(ret), sum(want, mpf(0))
                if not close(x, y):
                    return f"has the value {float(x):g} instead of {float(y):g} at x={float(sv['x'])}"
        return None
    raise Unk("sort")


def run(prog, rep):
    names = den.known_names(prog)
    allm = p10.setup(prog)
    cs_ = list(cases())
    ts = templates()
    st = fw.parallel(rep, [(lambda sub, c=c: judge(prog, sub, names, allm, *c)) for c in cs_] +
                     [(lambda sub, t=t: convert(prog, sub, names, allm, *t)) for t in ts], limit=600)
    for c, d in zip(cs_ + [(0, [0])] * len(ts), st):
        if d and not d["bad"]:
            if d["n"]:
                rep.ok(f"{d['nm']}: {d['n']} agreements over {len(c[1])} shapes")
            else:
                rep.undec(d["nm"], ", ".join(f"{k} x{m}" for k, m in list(d["unk"].items())[:4]) or "no path followed")
    rep.stats = st
    import os
    if os.environ.get("V"):
        for d in st:
            print(d and (d["nm"], d["n"], list(d["unk"].items())[:3]))
