"""P05: compiling an expression preserves its meaning."""
import random
import fw
from sx import *
import sx, vm, execs, agree, machine, models, den, trees
from trees import TreeVal, instances, POINTS, show, value
from tmpl import expr, arr, V, EK
from mir import callee
from ints import Unknown
from den import mpf, mpmath, Und, Unk, EXPR, close, FN, CONSTS

RULE = ("The expression compiler is interpreted abstractly on an expression of every variant with opaque children; compiling a child is the "
        "pseudo-instruction 'push the value of the child'. Each path yields the instruction sequence emitted under the path's conditions on the "
        "children. The effects of the sequence, extracted from the executor, are composed: the net effect must be one pushed cell whose "
        "closed form equals the expression's value, for trees of children that follow the path, wherever the expression is defined; the "
        "compiler's own depth counter must follow the emitted instructions. Constant folding, the constant pool and subexpression caching are decided the same way.")


HEAD = 3        # how far the code of a child rises above its own result


def deref(I_, st, s):
    while s[0] == "ptr":
        t = I_.load(st, s[1], s[2])
        if t[0] != "ptr":
            break
        s = t
    return s


def recursive(prog, b):
    """calls itself, directly or from one of its closures"""
    if b.name in {callee(x) for _, x in b.calls()}:
        return True
    return any(b.name in {callee(x) for _, x in k.calls()} for n, k in prog.bodies.items() if n.startswith(b.name + "::{closure"))


def find(prog, A):
    """the compiler: methods of the struct that owns the instruction vector under construction"""
    r = dict(compile=None, const=None, expensive=None, add=None, constval=[])
    cands = []
    for b in prog.fns():
        if "::tests::" in b.name or "{closure" in b.name:
            continue
        t = [b.locals[i] for i in range(1, b.nargs + 1)]
        ret = b.locals[0]
        rec = recursive(prog, b)
        if len(t) == 2 and t[0].startswith("&mut ") and t[1] == "&" + EXPR and ret.startswith("std::result::Result<()"):
            cands.append(b)
        if len(t) == 1 and t[0] == "&" + EXPR and rec and "evaluator" in b.name:
            if ret == "std::option::Option<f64>":
                r["const"] = b
            elif ret == "bool":
                r["expensive"] = b
        if len(t) == 2 and t[0].startswith("&mut ") and t[1] == "f64" and ret in ("u32", "usize") and "evaluator" in b.name:
            r["add"] = b
        if len(t) == 1 and t[0] in ("u64", "&str") and ret == "std::option::Option<f64>":
            r["constval"].append(b)
    # the entry is called from outside the struct's own methods
    byname = {b.name: b for b in cands}
    for b in prog.fns():
        pre = b.name.rsplit("::", 1)[0]
        for _, x in b.calls():
            n = callee(x)
            if n in byname and not b.name.startswith(n.rsplit("::", 1)[0]) and "::tests::" not in b.name:
                r["compile"] = byname[n]
    return r


class Ctx:
    pass


def run(prog, rep):
    A, variants, ex = vm.extract(prog)
    us, _ = agree.unify(prog, ex)
    ref = [u for u in us if not u.wide][0]
    c = Ctx()
    c.prog, c.rep, c.A = prog, rep, A
    c.f = find(prog, A)
    for k in ("compile", "const", "add"):
        rep.floor(f"compiler function: {k}", 1 if c.f[k] else 0, 1)
    if not c.f["compile"] or not c.f["add"]:
        return
    c.names = den.known_names(prog)
    c.eff = dict(ref.effects)
    q = vm.Path()
    q.conds, q.writes, q.cwrites, q.delta, q.problem = {}, {0: ("arg", "0")}, {}, 1, None
    c.eff["VAL"] = [q]
    c.renorm = sx.Interp(prog).renorm
    c.fields = self_fields(prog, c)
    if c.fields is None:
        rep.undec("compiler struct", "fields not recognised")
        return
    rep.notes["compiler state"] = {k: v for k, v in c.fields.items()}
    c.models = base_models(prog, c)
    c.depth = depth_fields(c)
    rep.floor("depth counter of the compiler", 1 if c.depth else 0, 1)
    if not c.depth:
        return
    ls = [V(f"a{i}") for i in range(5)]
    jobs = [("Number", expr("Number", V("n")), ()), ("Symbol", expr("Symbol", V("s")), ()),
            ("Sum/2", expr("Sum", arr(*ls[:2])), ls[:2])] + [
            (f"Sum/3.{i}", expr("Sum", arr(*[expr("Symbol", V("s"), tag="s") if j == i else ls[j] for j in range(3)])), [ls[j] for j in range(3) if j != i])
            for i in range(3)] + [
            ("Product/2", expr("Product", arr(*ls[:2])), ls[:2]), ("Product/3", expr("Product", arr(*ls[:3])), ls[:3]),
            ("Div", expr("Div", *ls[:2]), ls[:2]), ("Pow", expr("Pow", *ls[:2]), ls[:2])]
    for n in (1, 2, 3, 4):
        jobs.append((f"FunctionCall/{n}", expr("FunctionCall", V("fn"), arr(*ls[:n]), names=("name", "args")), ls[:n]))
    c.miss, c.compiled = [], set()
    work = [lambda k, a=a: denote(c, *a[:3], **a[3]) for a in [(*j, {}) for j in jobs] + polynomials(c)]
    work.sort(key=lambda f: -len(f.__defaults__[0][0]) - 99 * f.__defaults__[0][0].startswith("Sum/3"))
    work += [lambda k, j=j: folding(c, [j]) for j in jobs] + [lambda k: caching(c, jobs), lambda k: pool(c), lambda k: params(c)]

    def job(f):
        def g(sub):
            c.rep = sub
            c.compiled.clear()
            f(sub)
            return set(c.compiled)
        return g
    for v in fw.parallel(rep, [job(f) for f in work]):
        c.compiled |= v or set()
    coverage(c, rep)


def coverage(c, rep):
    """every function of the table is compiled by some path"""
    names = {n for n in FN if den.arity(n)}
    miss = sorted(names - c.compiled)
    rep.notes["known functions with a compiled instance"] = f"{len(names & c.compiled)} of {len(names)}; missing: {miss}"


def self_fields(prog, c):
    """roles of the compiler's fields, by type and by what the depth counter does"""
    b = c.f["compile"]
    ty = b.locals[1].replace("&mut ", "").split("<")[0]
    a = prog.adts.get(ty)
    a = a and [(f[0], f[1]) for f in a["variants"][0]["fields"]]
    r = {"instructions": None, "constants": None, "depth": [], "slots": []}
    if not a:
        return None
    for f, t in a:
        if "Vec<" + c.A in t:
            r["instructions"] = f
        elif t.endswith("Vec<f64>"):
            r["constants"] = f
        elif t == "usize":
            r["depth"].append(f)
        elif "HashMap<u64, (" in t and EXPR in t:
            r["slots"].append(f)
    return r if r["instructions"] and r["constants"] else None


def base_models(prog, c):
    m = den.build_models(prog)
    m[c.f["compile"].name] = lambda I_, st, args, r, d, tys: emit_val(I_, st, args, c)
    if c.f["const"]:
        m[c.f["const"].name] = lambda I_, st, args, r, d, tys: ("app", "const", I_.deep(st, args[0]))
    m[c.f["add"].name] = lambda I_, st, args, r, d, tys: ("app", "K", I_.deep(st, args[1]))
    for b in prog.fns():
        if b.nargs == 1 and b.locals[0] == "u64" and b.locals[1].endswith("InternedSymbol") and b.name.endswith("::id"):
            m[b.name] = lambda I_, st, args, r, d, tys: I_.deep(st, args[0])
    for b in c.f["constval"]:
        m[b.name] = lambda I_, st, args, r, d, tys: ("app", "constval", den.strip_id(I_.deep(st, args[0])))
    return m


def emit_val(I_, st, args, c):
    x = I_.deep(st, args[1])
    s = deref(I_, st, args[0])
    root, path = s[1], s[2]
    p = path + (("f", c.fields["instructions"]),)
    I_.store(st, root, p, models.vec_push(I_, st, I_.load(st, root, p), ("adt", c.A, "VAL", ("0",), (("val", x),))))
    cur, mx = c.depth
    pc_, pm = path + (("f", cur),), path + (("f", mx),)
    n = iadd(I_.load(st, root, pc_), I(1))
    I_.store(st, root, pc_, n)
    m = I_.load(st, root, pm)
    if n[0] == "i" and m[0] == "i":
        I_.store(st, root, pm, I(max(n[1] + HEAD, m[1])))
    return [(st, ("adt", "std::result::Result", "Ok", ("0",), (("tup", ()),)))]


def depth_fields(c):
    """(current, maximum) among the usize fields: the pair a function with no other effect updates by max"""
    for b in c.prog.fns():
        t = [b.locals[i] for i in range(1, b.nargs + 1)]
        if len(t) == 1 and t[0] == c.f["compile"].locals[1] and "{closure" not in b.name:
            it = Interp(c.prog, models={})
            st = State()
            st.mem[("H", "self")] = ("with", V("self"), tuple((("f", f), I(10 * (i + 1))) for i, f in enumerate(c.fields["depth"])))
            try:
                outs = it.run(st, b, [("ptr", ("H", "self"), (), True)])
            except Give:
                continue
            for o in outs:
                if o.kind != "ret":
                    continue
                s = it.deep(o.st, o.st.mem[("H", "self")])
                if s[0] != "with":
                    continue
                ch = {k[1]: v for k, v in s[2] if k[0] == "f"}
                up = [f for i, f in enumerate(c.fields["depth"]) if ch.get(f) == I(10 * (i + 1) + 1)]
                if len(up) == 1:
                    # which field follows it upwards?
                    for g in c.fields["depth"]:
                        if g == up[0]:
                            continue
                        st = State()
                        st.mem[("H", "self")] = ("with", V("self"), ((("f", up[0]), I(50)), (("f", g), I(50))))
                        try:
                            for o2 in it.run(st, b, [("ptr", ("H", "self"), (), True)]):
                                s2 = it.deep(o2.st, o2.st.mem[("H", "self")])
                                d2 = {k[1]: v for k, v in s2[2] if k[0] == "f"} if s2[0] == "with" else {}
                                if d2.get(g) == I(51):
                                    return up[0], g
                        except Give:
                            pass
    return None


def compile_paths(c, e, expensive=False, unroll=8):
    it = Interp(c.prog, models=dict(c.models), max_outs=20000)
    if c.f["expensive"] and expensive is not None:
        it.models[c.f["expensive"].name] = lambda I_, st, args, r, d, tys: B(expensive)
    it.opaque_loops = True
    it.unroll = unroll
    it.unroll_paths = 2000
    it.shapes = lambda v, name: {"Sum": [("0", [2])], "Product": [("0", [2, 3])], "FunctionCall": [("args", [1])]}.get(name, [])
    st = State()
    cur, mx = c.depth
    st.mem[("H", "self")] = ("with", V("self"), tuple(sorted(((("f", c.fields["instructions"]), arr()), (("f", c.fields["constants"]), arr()),
                                                              (("f", cur), I(10)), (("f", mx), I(10))), key=repr)))
    st.mem[("H", "e")] = e
    outs = []
    for o in it.run(st, c.f["compile"], [("ptr", ("H", "self"), (), True), ("ptr", ("H", "e"), (), False)]):
        if o.kind != "ret":
            continue
        s = it.deep(o.st, o.st.mem[("H", "self")])
        d = {k[1]: v for k, v in s[2] if k[0] == "f"} if s[0] == "with" else {}
        v = it.deep(o.st, o.val)
        outs.append((o, v, d))
    c.rep.functions |= it.called
    return outs


def strip_cast(t):
    while t[0] == "op" and t[1].startswith("cast_"):
        t = t[2]
    return t


def sequence(c, d):
    """[(variant, payload)] of the emitted instructions"""
    ins = d.get(c.fields["instructions"])
    if ins is None or ins[0] != "arr":
        return None
    r = []
    for x in ins[1]:
        if x[0] != "adt":
            return None
        r.append((x[2], {f: strip_cast(v) for f, v in zip(x[3], x[4])}))
    return r


def is_param(a):
    """the parameter lookup of a symbol: condition or payload"""
    return any(x[0] == "app" and (x[1].endswith("HashMap::get") or x[1].endswith("position")) for x in den.walk(a))


def hooks(c, d, cse=None):
    """meaning of the machine's operands in terms of the tree"""
    consts = d.get(c.fields["constants"])

    def fl(v, t):
        if t[0] == "kc":
            i = t[1]
            if i[0] == "app" and i[1] == "K":
                return v.f(i[2])
            n = v.f(i)
            if consts is None or consts[0] != "arr" or not 0 <= n < len(consts[1]):
                raise Unk("constant index")
            return v.f(consts[1][int(n)])
        if t[0] == "pa":
            s = param_symbol(v, t[1])
            if s is None:
                raise Unk("parameter")
            return v.sv[s]
        if t[0] == "fld" and t[2] == "Some" and t[1][0] == "app" and t[1][1].split("::")[-1] in den.KERNEL:
            return None
        return None

    def cond(v, t):
        if t[0] == "op" and t[1] == "lt" and t[3][0] == "len":
            return True          # operands are in range (decided by P02)
        return None

    def variant(v, t, want):
        if t[0] == "app" and (t[1].endswith("HashMap::get") or t[1].endswith("position")):
            s = param_symbol(v, t)
            if s is not None:
                some_ = s not in CONSTS
                return ("Some" if some_ else "None") == want if isinstance(want, str) else True
            return isinstance(want, str) and want in ("None", "Some") or None
        if t[0] == "app" and t[1].split("::")[-1] in den.KERNEL:
            try:
                v.call(den.KERNEL[t[1].split("::")[-1]], [v.f(x) for x in t[2:]])
                return want == "Some"
            except Und:
                return want == "None"
        return None
    return {"float": fl, "cond": cond, "variant": variant}


def param_symbol(v, t):
    """the symbol whose parameter index a term is"""
    for x in den.walk(t):
        if x[0] == "app" and x[1].endswith("HashMap::get"):
            try:
                return v.name(x[3])
            except (Unk, trees.Miss):
                pass
    # position of the symbol's id among the parameter ids
    for x in den.walk(t):
        if x[0] == "fld" and x[2] == "Symbol":
            try:
                return v.name(x)
            except (Unk, trees.Miss):
                pass
    return None


def meaning(c, seq, v, m):
    """value pushed by the final machine states at the point of v: ('ok', x) / ('und',) / ('shape', text)"""
    for s in m:
        if s.h != 1:
            return ("shape", f"the emitted code changes the stack height by {s.h} instead of 1")
        try:
            if all(safe(v, a) == x for a, x in s.conds.items()):
                neg = [o for o in s.st if o < 0]
                if neg:
                    return ("shape", "the emitted code overwrites values below its own")
                return ("ok", v.f(s.cell(0)))
        except Und:
            return ("und",)
    raise Unk("no machine state applies")


def safe(v, a):
    if a[0] == "is":
        raise Unk("is")
    return v.cond(a)


def cond_of(v, a, x):
    if a[0] == "is":
        r = v.variant_ok(a[1], x)
        return r
    return v.cond(a) == x


def machine_value(c, v, ms):
    und = None
    for s in ms:
        try:
            if not all(cond_of(v, a, x) for a, x in s.conds.items() if a[0] != "inrange"):
                continue
        except Und:
            continue
        return v.f(s.cell(0))
    raise Unk("no machine state applies")


def relevant(a):
    """conditions that do not restrict the children: caches, user functions"""
    return False


def denote(c, key, e, leaves, want=3, unroll=8, coef=()):
    rep = c.rep
    try:
        outs = compile_paths(c, e, False, unroll=unroll)
    except Give as g:
        rep.undec(key, str(g))
        return
    rng = random.Random(hash(key) & 0xffff if False else sum(map(ord, key)))
    leaves = list(leaves)
    roots = leaves + ([V("n")] if key == "Number" else []) + ([V("s")] if key == "Symbol" else []) + ([V("fn")] if key.startswith("FunctionCall") else [])
    good = paths = skipped = dead = 0
    bad = {}
    undecided = {}
    for o, val, d in outs:
        if val[0] != "adt" or val[2] != "Ok":
            continue
        seq = sequence(c, d)
        if seq is None:
            undecided["emitted code"] = undecided.get("emitted code", 0) + 1
            continue
        try:
            ms = machine.run_seq(c.eff, seq, c.renorm)
        except (Unknown, KeyError) as u:
            undecided[f"effects {u}"] = undecided.get(f"effects {u}", 0) + 1
            continue
        code = " ".join(n if n != "VAL" else "<child>" for n, _ in seq)
        # depth accounting
        for s in ms:
            if s.h != 1:
                bad.setdefault("stack", (f"emits {code}: net stack effect {s.h} instead of 1",))
            elif any(x < 0 for x in s.st):
                bad.setdefault("stack", (f"emits {code}: overwrites values below its own",))
        acc = accounting(c, seq, d)
        if acc:
            bad.setdefault("depth", (f"emits {code}: {acc}",))
        hk = hooks(c, d)
        found, unk = instances(c.names, o.st.pc, leaves, rng, tries=150, want=want, hooks=hk, fixed=lambda r, g: {**fixed_roots(key, r, g, len(leaves)), **{q: r.choice(trees.NUMS[1:]) for q in coef}})
        if not found:
            if unk == "infeasible":
                dead += 1
                continue
            skipped += 1
            c.miss.append((key, o.st.pc))
            if unk:
                undecided[str(unk)] = undecided.get(str(unk), 0) + 1
            continue
        paths += 1
        for v0 in found:
            tree = v0.res(e)
            if tree[0] == "fn":
                c.compiled.add(tree[1])
            for sv in POINTS:
                v = v0.with_point(sv)
                try:
                    w = value(tree, sv)
                except (Und, Unk):
                    continue
                try:
                    got = machine_value(c, v, ms)
                except Und:
                    got = None
                except Unk as u:
                    undecided[str(u)] = undecided.get(str(u), 0) + 1
                    continue
                if got is None or not close(got, w, mpf(10) ** -9):
                    bad.setdefault(("" if tree[0] != "fn" else tree[1] + ":") + "value", (f"{show(tree)} at {', '.join(f'{k}={mpmath.nstr(x, 4)}' for k, x in sv.items() if k in trees.syms(tree))} is "
                                             f"{mpmath.nstr(w, 8)} but the emitted code ({code}) gives {'no value' if got is None else mpmath.nstr(got, 8)}", tree))
                else:
                    good += 1
    rep.notes.setdefault("paths with an instance", {})[key] = f"{paths} of {paths + skipped} ({dead} contradictory)"
    for k, b in bad.items():
        rep.violate(f"{key}:{k}", c.f["compile"].name, f"compiling a {key}: {b[0]}")
    if not bad:
        if good:
            rep.ok(f"{key}: {good} values on {paths} paths")
        else:
            rep.undec(key, repr(undecided)[:200])
    c.dbg = undecided


def fixed_roots(key, r, g, n):
    if key == "Number":
        return {V("n"): g.number()}
    if key == "Symbol" or key.startswith("Sum/3") or key.startswith("Poly/symbol"):
        return {V("s"): g.ftrue.get(V("s")) or r.choice(["x", "y", "pi", "e"])}
    if key.startswith("FunctionCall"):
        nm = g.ftrue.get(V("fn"))
        if nm is None:
            nm = r.choice([x for x in FN if den.arity(x) == n] or ["f"])
        b = {V("fn"): nm}
        if nm in den.ORDERS and r.random() < 0.8:
            for i in range(den.ORDERS[nm]):
                b[V(f"a{i}")] = ("num", float(2 - i))
            b[V(f"a{n - 1}")] = ("sym", "x")
        return b
    return {}


def accounting(c, seq, d):
    """the depth counter after and its maximum against the emitted code"""
    cur, mx = c.depth
    h = top = 0
    for n, _ in seq:
        ds = {p.delta for p in c.eff[n]}
        if len(ds) != 1 or None in ds:
            return None
        h += ds.pop()
        top = max(top, h + (HEAD if n == "VAL" else 0))
    a, b = d.get(cur), d.get(mx)
    if a is None or b is None or a[0] != "i" or b[0] != "i":
        return None
    if a[1] != 10 + h:
        return f"the depth counter changes by {a[1] - 10}, the code by {h}"
    if b[1] < 10 + top:
        return f"the recorded maximum depth grows by {b[1] - 10}, the code reaches {top}"
    return None


def polynomials(c):
    """polynomial nodes: every code generation strategy, chosen by degree and base"""
    out = []
    base, sym = V("a0"), expr("Symbol", V("s"), tag="s")
    for b, bn in ((base, "base"), (sym, "symbol")):
        for pows in ((0,), (1,), (0, 1), (0, 2, 3), (1, 4), (0, 65), (2, 3, 66)):
            cs = [V(f"c{p}") for p in pows]
            e = expr("Poly", ("adt", "core::poly::Polynomial", "Polynomial", ("base", "terms"), (b, arr(*[("tup", (I(p), q)) for p, q in zip(pows, cs)]))))
            out.append((f"Poly/{bn}{list(pows)}", e, [base] if b is base else [], dict(unroll=90, coef=cs)))
    return out


def folding(c, jobs):
    """a constant folded at compile time is the value of the expression"""
    rep = c.rep
    if not c.f["const"]:
        return
    for key, e, leaves in jobs:
        it = Interp(c.prog, models=dict(c.models), max_outs=20000)
        it.opaque_loops = True
        it.unroll = 8
        it.shapes = lambda v, name: {"Sum": [("0", [2])], "Product": [("0", [2])], "FunctionCall": [("args", [1])]}.get(name, [])
        it.models[c.f["const"].name] = lambda I_, st, args, r, d, tys: ("app", "const", I_.deep(st, args[0]))
        st = State()
        st.mem[("H", "e")] = e
        try:
            outs = [(o, it.deep(o.st, o.val)) for o in it.run(st, c.f["const"], [("ptr", ("H", "e"), (), False)]) if o.kind == "ret"]
        except Give as g:
            rep.undec("fold " + key, str(g))
            continue
        rep.functions |= it.called
        rng = random.Random(7)
        good, bad, unk, n = 0, {}, {}, 0
        for o, t in outs:
            opt = t[0] == "app" and t[1] in ("const", "constval")
            if not opt and (t[0] != "adt" or t[2] != "Some"):
                if t[0] != "adt":
                    unk[repr(t)[:80]] = 1
                continue
            found, u = instances(c.names, o.st.pc, list(leaves), rng, tries=150, want=5, hooks=hooks(c, {}), fixed=lambda r, g: fixed_roots(key, r, g, len(leaves)))
            if u and not found and u != "infeasible":
                unk[str(u)] = 1
            n += bool(found)
            for v0 in found:
                for sv in POINTS:
                    v = v0.with_point(sv)
                    tree = v.res(e)
                    try:
                        w = value(tree, sv)
                    except (Und, Unk):
                        continue
                    try:
                        if opt and not v.variant_ok(t, "Some"):
                            continue
                        got = v.opt(t) if opt else v.f(t[4][0])
                    except Und:
                        got = None
                    except Unk as u2:
                        unk[str(u2)] = 1
                        continue
                    if got is None or not close(got, w, mpf(10) ** -9):
                        bad.setdefault(("" if tree[0] != "fn" else tree[1] + ":") + "value", f"{show(tree)} is folded to {'no value' if got is None else mpmath.nstr(got, 8)} instead of {mpmath.nstr(w, 8)}")
                    else:
                        good += 1
        for k, b in bad.items():
            rep.violate(f"fold {key}:{k}", c.f["const"].name, b)
        if not bad:
            if good:
                rep.ok(f"fold {key}: {good} values on {n} paths")
            elif unk:
                rep.undec("fold " + key, repr(unk)[:200])


def caching(c, jobs):
    """a cached subexpression is stored under a fresh slot after it was computed, and loaded only for an equal expression"""
    rep = c.rep
    key, e, leaves = next(j for j in jobs if j[0] == "Div")
    try:
        outs = compile_paths(c, e, True)
    except Give as g:
        rep.undec("caching", str(g))
        return
    loads = stores = 0
    bad = {}
    for o, val, d in outs:
        if val[0] != "adt" or val[2] != "Ok":
            continue
        seq = sequence(c, d)
        if seq is None:
            continue
        n = [x for x in seq if x[0] == "LoadCached"]
        m = [x for x in seq if x[0] == "StoreCached"]
        gets = [a[1] for a, x in o.st.pc.items() if a[0] == "is" and x == "Some" and a[1][0] == "app" and "Map" in a[1][1] and "get" in a[1][1]]
        acc = accounting(c, seq, d)
        if acc:
            bad["depth"] = acc
        for _, p in n:
            slot = p["0"]
            g = [y for y in den.walk(slot) if y[0] == "fld" and y[2] == "Some" and y[1] in gets]
            if not g:
                rep.undec("caching load", repr(slot)[:160])
                continue
            entry = g[0]
            same = [a for a, x in o.st.pc.items() if x is True and a[0] == "op" and a[1] == "eq" and any(y == e for y in a[2:]) and any(entry == z for y in a[2:] for z in den.walk(y))]
            h = [a for a, x in o.st.pc.items() if x is True and a[0] == "op" and a[1] == "eq" and any(entry == z for z in den.walk(a))]
            if same:
                loads += 1
            elif h and all(is_hash(y) for a in h for y in a[2:]):
                bad["load"] = "a cached value is loaded for an expression that was compared with the cached one by hash only"
            elif h:
                rep.undec("caching load", repr(h)[:160])
            else:
                bad["load"] = "a cached value is loaded for an expression that was not compared with the cached one (only its hash)"
            if len(seq) != 1:
                bad["load"] = "code besides the cache load is emitted for a cached expression"
        if m:
            if len(m) != 1 or seq[-1][0] != "StoreCached":
                bad["store"] = "a value is stored in the cache before it is complete"
                continue
            slot = m[0][1]["0"]
            rec = record(c, d, e)
            if rec is None:
                rep.undec("caching store", repr(d)[:200])
                continue
            rslot, n1 = rec
            if strip_cast(rslot) != slot:
                bad["store"] = f"the value is stored in slot {slot} but recorded under {rslot}"
            elif n1 is None and slot[0] == "fld" and slot[1] == V("self") and slot[-1] not in d:
                bad["slot"] = f"the slot {slot[-1]} of a cached value is not advanced: it is handed out again"
            elif n1 is None:
                rep.undec("caching store", "slot counter")
            elif not fresh(slot, n1):
                bad["slot"] = f"the slot {repr(slot)[:80]} can be handed out again"
            else:
                stores += 1
    for k, b in bad.items():
        rep.violate("caching:" + k, c.f["compile"].name, b)
    if not bad:
        if loads and stores:
            rep.ok(f"caching: {loads} loads after an equality test, {stores} stores in a fresh slot recorded for the expression")
        else:
            rep.undec("caching", f"{loads} loads, {stores} stores recognised")


def is_hash(t):
    """a term that is the hash of an expression"""
    t = strip_cast(t)
    return t[0] == "fld" and t[-1] == "hash" or t == V("hash") or t[0] == "app" and "hash" in t[1].split("::")[-1].lower()


def params(c):
    """the constructor of the compiler maps the symbol of the i-th parameter to i"""
    rep = c.rep
    ty = c.f["compile"].locals[1].replace("&mut ", "").split("<")[0]
    a = c.prog.adts.get(ty)
    fl = {f[0]: f[1] for f in a["variants"][0]["fields"]} if a else {}
    done = 0
    for b in c.prog.fns():
        t = [b.locals[i] for i in range(1, b.nargs + 1)]
        if not b.locals[0].startswith(ty) or "&[u64]" not in t or "::tests::" in b.name or "{closure" in b.name:
            continue
        it = Interp(c.prog, max_outs=200)
        st = State()
        args = []
        for i, x in enumerate(t):
            if x.startswith("&"):
                st.mem[("H", f"p{i}")] = V("ids" if x == "&[u64]" else f"p{i}")
                args.append(("ptr", ("H", f"p{i}"), (), False))
            else:
                args.append(V(f"p{i}"))
        try:
            outs = [(o, it.deep(o.st, o.val)) for o in it.run(st, b, args) if o.kind == "ret"]
        except Give as g:
            rep.undec("parameters", str(g))
            continue
        rep.functions |= it.called | {b.name}
        for o, v in outs:
            if v[0] != "adt":
                rep.undec("parameters", "constructor")
                continue
            for f, x in zip(v[3], v[4]):
                if f not in fl:
                    continue
                if fl[f].endswith("Vec<u64>") and x != V("ids"):
                    rep.undec("parameters", f"{f} = {repr(x)[:120]}")
                elif fl[f].endswith("HashMap<u64, usize>"):
                    ok = why = None
                    if x[0] == "hof" and x[1] == "collect" and x[2][0] == "map" and x[2][2][0] == "lam":
                        src, bodies = x[2][1], x[2][2][3]
                        if src == ("enum", V("ids")) and len(bodies) == 1 and not bodies[0][0] and bodies[0][1][0] == "tup":
                            k, i = bodies[0][1][1]
                            isel = lambda y, n: y[0] == "fld" and y[1][0] == "bv" and y[-1] == n
                            if isel(k, "1") and isel(i, "0"):
                                ok = True
                            elif isel(k, "1") and any(isel(y, "0") for y in den.walk(i)) and i[0] in ("lin", "op"):
                                ok = False
                                why = f"the symbol of parameter i is mapped to {repr(i)[:120]}"
                    if ok:
                        done += 1
                    elif ok is False:
                        rep.violate("parameters", b.name, why)
                        return
                    else:
                        rep.undec("parameters", f"{f} = {repr(x)[:160]}")
    if done:
        rep.ok("parameters: the symbol of the i-th parameter is compiled to a load of parameter i")


def record(c, d, e):
    """(slot recorded in the map for e, new value of the slot counter)"""
    for f in c.fields["slots"]:
        t = d.get(f)
        if t is None:
            continue
        for y in den.walk(t):
            if y[0] == "app" and "insert" in y[1] and len(y) >= 4:
                for z in y[2:]:
                    if z[0] == "tup" and len(z[1]) == 2 and z[1][0] == e:
                        cnt = [d[g] for g in c.fields["depth"] if g not in c.depth and g in d]
                        return z[1][1], (cnt[0] if len(cnt) == 1 else None)
    return None


def fresh(slot, n1):
    """the counter moved past the slot"""
    d = iconst_diff(n1, slot)
    return d is not None and d >= 1


LOSSY = ("abs", "round", "floor", "ceil", "trunc", "fract", "signum")


def pool(c):
    """the constant pool returns an index that holds the constant"""
    rep = c.rep
    b = c.f["add"]
    it = Interp(c.prog, models={}, max_outs=2000)
    it.opaque_loops = True
    st = State()
    st.mem[("H", "self")] = V("self")
    try:
        outs = [o for o in it.run(st, b, [("ptr", ("H", "self"), (), True), V("val")]) if o.kind == "ret"]
    except Give as g:
        rep.undec("constant pool", str(g))
        return
    rep.functions |= it.called
    pushed = found = 0
    bad = None
    pool0 = ("fld", V("self"), "", c.fields["constants"])
    for o in outs:
        s = it.deep(o.st, o.st.mem[("H", "self")])
        d = {k[1]: v for k, v in s[2] if k[0] == "f"} if s[0] == "with" else {}
        cv = d.get(c.fields["constants"])
        idx = strip_cast(it.deep(o.st, o.val))
        if cv is not None and cv != pool0:
            if cv[0] == "seq" and cv[1] == pool0 and len(cv[3]) == 1:
                wi, wv = cv[3][0]
                if wv != V("val"):
                    bad = f"{repr(wv)[:80]} is added to the pool instead of the constant"
                elif iconst_diff(idx, wi) == 0:
                    pushed += 1
                else:
                    bad = f"the constant is stored at {repr(wi)[:80]} but index {repr(idx)[:80]} is returned"
            else:
                rep.undec("constant pool", "pool update " + repr(cv)[:120])
        else:
            # an existing entry: it must have been found under the bits of the constant
            keys = [y for y in den.walk(idx) if y[0] == "app" and "Map" in y[1] and ("entry" in y[1] or "get" in y[1]) or y[0] == "app" and y[1] == "map_get"]
            bits = [z[2] for y in keys for z in den.walk(y) if z[0] == "app" and z[1].endswith("to_bits")]
            if bits and all(z == V("val") for z in bits):
                found += 1
            elif bits and any(z[0] == "op" and z[1] in LOSSY and V("val") in list(den.walk(z)) for z in bits):
                bad = f"an existing entry is looked up by the bits of {bits[0][1]} of the constant: different constants share an entry"
            elif keys and any(V("val") in list(den.walk(y)) for y in keys):
                bad = "an existing entry is looked up by something other than the bits of the constant: " + repr(keys[0])[:160]
            else:
                rep.undec("constant pool", "lookup " + repr(idx)[:160])
    if bad:
        rep.violate("constant pool", b.name, bad)
    elif pushed:
        rep.ok(f"constant pool: {pushed} paths add the constant at the returned index, {found} reuse an entry with equal bits")
