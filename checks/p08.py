"""P08: symbolic differentiation follows the differentiation rules for every node of the expression tree."""
from sx import *
import sx, den, tmpl
from tmpl import *
from mir import callee
from den import mpf, mpmath

RULE = ("The recursive differentiator is interpreted abstractly on an expression of each variant with opaque children; the recursive call on a "
        "child c is the symbol D(c). Every path gives a closed form over the children and their derivatives, under the path's conditions "
        "(is the child a literal, does it mention the variable, is its derivative the literal 0 or 1). For every valuation of the "
        "children that follows a path, the closed form must be the derivative prescribed by the rule of calculus for that variant.")

X, Y = "x", "y"
PROFS = [num("0"), num("1"), num("2"), num("-1.5"),
         Profile("x", "1.3", "Symbol", 1, "one", True, X), Profile("x=0", "0", "Symbol", 1, "one", True, X), Profile("y", "0.7", "Symbol", 0, "zero", False, Y),
         Profile("g(x)", "1.7", "FunctionCall", "0.9", "gen", True), Profile("h(x)<0", "-0.6", "FunctionCall", "-1.4", "gen", True),
         Profile("c(x)'=0", "2.2", "FunctionCall", 0, "zero", True), Profile("x+1", "2.3", "Sum", 1, "one", True),
         Profile("k(y)", "0.45", "FunctionCall", 0, "zero", False)]


def derive_fn(prog):
    """the recursive differentiator: takes an Expr and a Context, returns an Expr, calls itself"""
    c = []
    for b in prog.fns():
        t = [b.locals[i] for i in range(1, b.nargs + 1)]
        if b.locals[0] == EXPR and t and t[0] == "&" + EXPR and any("Context" in x for x in t) and b.name.startswith(EXPR):
            c.append(b)
    rec = [b for b in c if b.name in {callee(t) for _, t in b.calls()}]
    return rec[0] if rec else None


def fact(n, t):
    """a structural fact about an expression; the children called q<i> are known to be generic"""
    if n.startswith("is_") and t[0] == "app" and t[1] == "D" and t[2][0] == "var" and t[2][1][0] == "q":
        return B(False)
    return ("app", n, t)


def pow_rule(u, v, du, dv, general):
    if dv == 0 and not general:
        if v == 0 or du == 0:
            den.fpow(u, v)
            return mpf(0)
        return v * den.fpow(u, v - 1) * du
    if not u > 0:
        raise Und()
    return den.fpow(u, v) * (dv * mpmath.log(u) + v * du / u)


def run(prog, rep):
    body = derive_fn(prog)
    rep.floor("recursive differentiator", 1 if body else 0, 1)
    if not body:
        return
    names = den.known_names(prog)
    models = den.build_models(prog)
    for n in ("is_zero_num", "is_one_num", "is_neg_one_num", "as_number", "contains_var", "contains_var_id"):
        models[f"{EXPR}::{n}"] = (lambda n: lambda I_, st, args, r, d, tys: fact(n.replace("_id", ""), I_.deep(st, args[0])))(n)
    models[body.name] = lambda I_, st, args, r, d, tys: ("app", "D", I_.deep(st, args[0]))
    for n in ("derive", "derive_raw"):
        # a fresh differentiation forgets the context: distinguishable from the recursive call
        models[f"{EXPR}::{n}"] = lambda I_, st, args, r, d, tys: ("app", "D0", I_.deep(st, args[0]))
    models["functions::registry::Registry::get_by_symbol"] = lambda I_, st, args, r, d, tys: ("app", "registry", I_.deep(st, args[0]))
    models["functions::registry::Registry::get"] = models["functions::registry::Registry::get_by_symbol"]

    def paths(e):
        it = Interp(prog, models=models, max_outs=6000)
        it.unroll = 14
        st = State()
        st.mem[("H", "self")] = e
        st.mem[("H", "ctx")] = V("ctx")
        st.mem[("H", "vsym")] = V("var")
        args = [("ptr", ("H", "self"), (), False)]
        for i in range(2, body.nargs + 1):
            ty = body.locals[i]
            args.append(("ptr", ("H", "ctx"), (), False) if "Context" in ty else ("ptr", ("H", "vsym"), (), False) if "Symbol" in ty else
                        V("var") if "str" in ty else V("var_id"))
        outs = [(o, it.deep(o.st, o.val)) for o in it.run(st, body, args) if o.kind == "ret"]
        rep.functions |= it.called
        return outs

    def rule(key, e, leaves, want, profs=PROFS, hooks=None, env=None, what=None):
        try:
            outs = paths(e)
        except Give as g:
            rep.undec(key, str(g))
            return
        good, unk, bad = 0, {}, None
        used = set()
        for pr in valuations(leaves, profs):
            try:
                w = want(pr)
            except (Und, ZeroDivisionError):
                continue
            for i, (o, t) in enumerate(outs):
                v = TVal(names, pr, env=env, hooks=hooks)
                try:
                    if not v.pc_holds(o.st.pc):
                        continue
                    got = v.e(t)
                except Und:
                    got = None
                except Unk as u:
                    unk[str(u)] = unk.get(str(u), 0) + 1
                    continue
                used.add(i)
                if got is None or not close(got, w, mpf(10) ** -10):
                    bad = bad or (pr, w, got)
                else:
                    good += 1
        if bad:
            pr, w, got = bad
            rep.violate(f"{key}:{'undefined' if bad[2] is None else 'value'}", body.name,
                        f"derivative of {what or key} is wrong for {', '.join(f'{l[1]}={p}' for l, p in pr.items())}: "
                        f"{'no value' if got is None else mpmath.nstr(got, 8)} instead of {mpmath.nstr(w, 8)}")
        elif good:
            rep.ok(f"{key}: {good} valuations on {len(used)}/{len(outs)} paths")
        else:
            rep.undec(key, repr(unk)[:200])

    a, b, c = V("a"), V("b"), V("c")
    # leaves of the tree
    rule("Number", expr("Number", V("n")), (), lambda p: mpf(0), env={V("n"): mpf(3)})
    symbol_rule(rep, body, names, paths)
    for ls in ((a,), (a, b), (a, b, c)):
        rule(f"Sum/{len(ls)}", expr("Sum", arr(*ls)), ls, lambda p: sum(p[l].d for l in ls), what="a sum")
        rule(f"Product/{len(ls)}", expr("Product", arr(*ls)), ls, lambda p: prod_rule([p[l] for l in ls]), what="a product")
    big = tuple(V(f"a{i}" if i in (0, 4, 10) else f"q{i}") for i in range(11))
    vary = (big[0], big[4], big[10])
    base = [Profile(f"q{i}", mpf(3 + i) / 7, "FunctionCall", mpf(5 - i) / 3, "gen", True) for i in range(11)]

    def full(p):
        return [p.get(l, q) for l, q in zip(big, base)]
    try:
        outs = paths(expr("Product", arr(*big)))
    except Give as g:
        rep.undec("Product/11", str(g))
        outs = None
    if outs is not None:
        good, bad, unk = 0, {}, set()
        for pr in valuations(vary, PROFS):
            prs = dict(zip(big, full(pr)))
            w = prod_rule(list(prs.values()))
            for o, t in outs:
                v = TVal(names, prs)
                try:
                    if not v.pc_holds(o.st.pc):
                        continue
                    got = v.e(t)
                except Und:
                    got = None
                except Unk as u:
                    unk.add(str(u))
                    continue
                if got is None or not close(got, w, mpf(10) ** -10):
                    bad.setdefault("undefined" if got is None else "value", (pr, w, got))
                else:
                    good += 1
        for k, (pr, w, got) in bad.items():
            rep.violate("Product/11:" + k, body.name, f"derivative of a product of 11 factors is wrong for {', '.join(f'{l[1]}={p}' for l, p in pr.items())}: "
                        f"{'no value' if got is None else mpmath.nstr(got, 8)} instead of {mpmath.nstr(w, 8)}")
        if good and not bad:
            rep.ok(f"Product/11: {good} valuations")
        elif not bad:
            rep.undec("Product/11", repr(unk)[:200])
    rule("Div", expr("Div", a, b), (a, b), lambda p: (p[a].d * p[b].val - p[a].val * p[b].d) * den.inv_(p[b].val ** 2), what="a quotient")
    rule("Pow", expr("Pow", a, b), (a, b), lambda p: pow_rule(p[a].val, p[b].val, p[a].d, p[b].d, p[b].contains), what="a power")
    # polynomials: terms with known powers and opaque coefficients
    for pows in ((0,), (1,), (2,), (0, 1), (0, 1, 2), (1, 3), (2, 5)):
        cs = [V(f"c{p}") for p in pows]
        e = expr("Poly", ("adt", POLY, "Polynomial", ("base", "terms"), (a, arr(*[("tup", (I(p), q)) for p, q in zip(pows, cs)]))))
        for vals in ((2, -3, 5), (1, 1, 1), (-1, mpf("0.5"), -1), [mpf(-1) / max(p, 1) for p in pows], [mpf(1) / max(p, 1) for p in pows]):
            env = {q: mpf(v) for q, v in zip(cs, vals)}
            rule(f"Poly{list(pows)}", e, (a,),
                 lambda p: sum(q * n * (p[a].val ** (n - 1)) * p[a].d for n, q in zip(pows, vals) if n), env=env, what="a polynomial")
    # derivative of an unevaluated derivative
    deriv_rule(rep, body, paths)
    # function calls
    call_rule(rep, body, names, paths)


def prod_rule(ps):
    r = mpf(0)
    for i, p in enumerate(ps):
        q = p.d
        for j, o in enumerate(ps):
            if j != i:
                q *= o.val
        r += q
    return r


def is_var_test(a):
    """the condition 'this symbol is the differentiation variable'"""
    s = repr(a)
    return a[0] == "op" and a[1] == "eq" and "'var'" in s and ("'var_id'" in s or "('var', 'var')" in s)


def symbol_rule(rep, body, names, paths):
    try:
        outs = paths(expr("Symbol", V("sym")))
    except Give as g:
        rep.undec("Symbol", str(g))
        return
    for o, t in outs:
        tests = [(a, x) for a, x in o.st.pc.items() if is_var_test(a) and "'sym'" in repr(a)]
        if len(tests) != 1 or len(o.st.pc) != 1:
            rep.undec("Symbol", f"conditions {repr(o.st.pc)[:120]}")
            continue
        v = Val(names, {})
        try:
            got = v.e(t)
        except (Unk, Und) as u:
            rep.undec("Symbol", str(u))
            continue
        want = mpf(1) if tests[0][1] else mpf(0)
        if got == want:
            rep.ok(f"Symbol {'is' if tests[0][1] else 'is not'} the variable: {int(want)}")
        else:
            rep.violate("Symbol:value", body.name, f"the derivative of {'the variable' if tests[0][1] else 'another symbol'} is {got}, not {want}")


def deriv_rule(rep, body, paths):
    """d/dx of the unevaluated derivative d^n f/dv^n: one more derivative with respect to x, or 0 when x does not occur in f"""
    inner, dv, od = V("inner"), V("dv"), V("ord")
    try:
        outs = paths(expr("Derivative", inner, dv, od, names=("inner", "var", "order")))
    except Give as g:
        rep.undec("Derivative", str(g))
        return
    for o, t in outs:
        same = [x for a, x in o.st.pc.items() if is_var_test(a) and "'dv'" in repr(a)]
        con = [x for a, x in o.st.pc.items() if a[0] == "app" and a[1] == "contains_var" and a[2] == inner]
        if len(o.st.pc) != len(same) + len(con):
            rep.undec("Derivative", repr(o.st.pc)[:160])
            continue
        m = multi(t)
        if m is None:
            rep.undec("Derivative", repr(t)[:160])
            continue
        known_same = same == [True]
        if con == [False]:
            good = m == 0 or (m[0] == inner)
        elif known_same:
            good = m != 0 and m[0] == inner and m[1] == {"dv": iadd(od, I(1))}
        elif same == [False]:
            good = m != 0 and m[0] == inner and m[1] == {"dv": od, "var": I(1)}
        else:
            rep.undec("Derivative", "variable comparison not recognised")
            continue
        if good:
            rep.ok(f"Derivative {'same' if known_same else 'other'} variable: one order added")
        else:
            rep.violate(f"Derivative:{'same' if known_same else 'other'}", body.name,
                        f"the derivative of d^n f/dv^n with respect to {'v' if known_same else 'another variable that occurs in f'} is {repr(t)[:160]}")


def multi(t):
    """(function, {variable: order}) of nested unevaluated derivatives; 0 for the literal zero"""
    if t[0] == "app" and t[1] == "E:number" and t[2] == F(0):
        return 0
    if t[0] == "adt" and t[1] == EXPR:
        t = den.fld_of(t, "kind")
    if t[0] == "adt" and t[2] == "Derivative":
        i, v, n = (den.fld_of(t, f) for f in ("inner", "var", "order"))
    elif t[0] == "app" and t[1] in ("E:derivative", "E:derivative_interned"):
        i, v, n = t[2:5]
    else:
        return (t, {}) if t[0] == "var" else None
    r = multi(i)
    if r is None or r == 0:
        return r
    v = strip_id(v)
    if v[0] != "var":
        return None
    k = "var" if v[1] in ("var", "var_id") else v[1]
    d = dict(r[1])
    d[k] = iadd(d[k], n) if k in d else n
    return r[0], d


def call_rule(rep, body, names, paths):
    """chain rule of function calls, by where the function comes from"""
    fn = V("fn")
    for n in (1, 2, 3):
        ls = tuple(V(f"a{i}") for i in range(n))
        try:
            outs = paths(expr("FunctionCall", fn, arr(*ls), names=("name", "args")))
        except Give as g:
            rep.undec(f"FunctionCall/{n}", str(g))
            continue
        good, unk = {}, {}
        bad = {}
        for o, t in outs:
            reg = [x for a, x in o.st.pc.items() if a[0] == "is" and a[1][0] == "app" and a[1][1] == "registry"]
            used_reg = t[0] == "app" and t[1] == "call" and "'registry'" in repr(t[2])
            if used_reg:
                # (rule)(args, primes)
                args = [x for x in t[3:]]
                if len(args) == 1 and args[0][0] == "tup":
                    args = list(args[0][1])
                ok_ = len(args) == 2 and args[0] == arr(*ls) and args[1] == arr(*[("app", "D", l) for l in ls]) and "derivative" in repr(t[2])
                if len(args) != 2 or args[1][0] != "arr" or args[0][0] != "arr":
                    unk["registry"] = repr(t)[:200]
                elif ok_:
                    good["registry"] = good.get("registry", 0) + 1
                else:
                    bad["registry"] = f"the derivative rule is applied to {repr(args)[:160]}"
                continue
            src = "user" if any("user_functions" in repr(a) and a[0] == "is" and x == "Some" for a, x in o.st.pc.items()) else "other"
            check_chain(o, t, fn, ls, names, src, good, bad, unk)
        for k in sorted(set(good) | set(bad) | set(unk)):
            if k in bad:
                rep.violate(f"FunctionCall:{k}", body.name, f"chain rule of a {k} function of {n} arguments: {bad[k]}")
            elif k in good:
                rep.ok(f"FunctionCall/{n} {k}: {good[k]} (path, valuation) pairs")
            else:
                rep.undec(f"FunctionCall/{n} {k}", unk[k])


def partial_index(t, ls):
    """index of the argument a partial-derivative term belongs to"""
    if t[0] == "app" and t[1] == "call":
        # user partial: looked up under a position, applied to the arguments
        g = find_app(t[2], lambda x: x[1].endswith("HashMap::get") and "partials" in repr(x[2]))
        a = [x for x in t[3:]]
        if len(a) == 1 and a[0][0] == "tup":
            a = list(a[0][1])
        if g is None or g[3][0] != "i" or not a or a[0] != arr(*ls):
            return None
        return g[3][1]
    if t[0] == "app" and t[1] == "E:derivative":
        # symbolic partial of the call itself
        f = t[2]
        if not (f[0] == "app" and f[1].startswith("E:func_multi") and f[2] == V("fn") and f[3] == arr(*ls)) or t[4] != I(1):
            return None
        r = find_app(t[3], lambda x: "Argument" in x[1] and x[2:] and x[2][0] == "i")
        return r[2][1] if r else None
    return None


def find_app(t, p):
    for x in den.walk(t):
        if x[0] == "app" and isinstance(x[1], str):
            try:
                if p(x):
                    return x
            except (IndexError, TypeError):
                pass
    return None


def check_chain(o, t, fn, ls, names, src, good, bad, unk):
    pv = [mpf(11), mpf(-7), mpf(5)]
    wrong = []

    def hook(v, x):
        if x[0] == "app" and x[1] in ("call", "E:derivative"):
            i = partial_index(x, ls)
            if i is None or i >= len(ls):
                return None
            # an explicit partial must be used when one is registered
            has = [(a, y) for a, y in o.st.pc.items() if a[0] == "is" and a[1][0] == "app" and a[1][1].endswith("HashMap::get")
                   and "partials" in repr(a[1][2]) and a[1][3] == I(i)]
            if x[1] == "E:derivative" and any(y == "Some" for _, y in has):
                wrong.append(i)
            return pv[i]
        return None
    for pr in valuations(ls, PROFS, 300):
        want = sum(pv[i] * pr[l].d for i, l in enumerate(ls))

        def variant(v, tt):
            if tt[0] == "app" and (tt[1] == "registry" or tt[1].endswith("HashMap::get") or tt[1].endswith("get_user_fn_by_id")):
                x = o.st.pc[("is", tt)]
                return x if isinstance(x, str) else "other"
            return None

        def cond(v, tt):
            if tt[0] == "app" and ("RangeInclusive" in tt[1] or tt[1].endswith("validate_arity")):
                return o.st.pc.get(tt)
            if is_name_test(tt):
                return o.st.pc.get(tt)
            return None
        v = TVal(names, pr, hooks={"variant": variant, "cond": cond})
        v._e = wrap(v, hook)
        try:
            isexp = [x for a, x in o.st.pc.items() if is_name_test(a)]
            if not v.pc_holds(o.st.pc):
                continue
            if any(isexp):
                # the function is exp: its partial is itself
                if len(ls) != 1:
                    unk[src] = "named function with several arguments"
                    continue
                want = mpmath.exp(pr[ls[0]].val) * pr[ls[0]].d
            got = v.e(t)
        except Und:
            continue
        except Unk as u:
            unk[src] = str(u)
            continue
        if wrong:
            bad[src] = f"the registered partial derivative of argument {wrong[0]} is ignored"
        elif not close(got, want, mpf(10) ** -10):
            bad[src] = f"for {pr}: {mpmath.nstr(got, 8)} instead of {mpmath.nstr(want, 8)}"
        else:
            k = "exp" if any(isexp) else src
            good[k] = good.get(k, 0) + 1


def is_name_test(a):
    return a[0] == "op" and a[1] == "eq" and "'fn'" in repr(a) and "static" in repr(a) and a[2] != a[3]


def wrap(v, hook):
    base = v._e

    def f(t):
        r = hook(v, t)
        return r if r is not None else base(t)
    return f
