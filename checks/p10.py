"""P10: every simplification rule preserves the value of the expression it rewrites."""
import random
import signal
import time
import fw
from sx import *
import sx, den, trees
from trees import TreeVal, Gen, instances, POINTS, show, value
from tmpl import expr, arr, V, EK
from den import mpf, mpmath, Und, Unk, EXPR, FN, CONSTS, close

RULE = ("Every implementation of the rule trait is interpreted abstractly on an expression of each kind with opaque parts; each path that returns "
        "a rewritten expression gives a closed form over the parts, under the conditions the path tested. For expressions that follow the path, "
        "the closed form must have the value of the original expression at every sample point where both are defined; a rule that does not "
        "declare that it alters the domain must, in the domain-safe mode, be defined wherever the original is.")
OPT = "std::option::Option<std::sync::Arc<core::expr::Expr>>"
POINTS = POINTS + [{"x": mpf(-1), "y": mpf("2.4"), "z": mpf("-0.35")}, {"x": mpf("2.2"), "y": mpf("-0.8"), "z": mpf(1)}]
EXTRA = [{"x": mpf(a), "y": mpf(b), "z": mpf(c)} for a, b, c in (("0.31", "0.77", "1.9"), ("1.4", "2.2", "0.6"), ("3.7", "0.2", "5.1"))]


MAXP = 400


class Late(Exception):
    pass


def templates():
    a, b, c = V("a"), V("b"), V("c")
    return [("Number", expr("Number", V("n")), ()), ("Symbol", expr("Symbol", V("s")), ()),
            ("Sum/2", expr("Sum", arr(a, b)), (a, b)), ("Sum/3", expr("Sum", arr(a, b, c)), (a, b, c)),
            ("Product/2", expr("Product", arr(a, b)), (a, b)), ("Product/3", expr("Product", arr(a, b, c)), (a, b, c)),
            ("Div", expr("Div", a, b), (a, b)), ("Pow", expr("Pow", a, b), (a, b)),
            ("FunctionCall/1", expr("FunctionCall", V("fn"), arr(a), names=("name", "args")), (a,)),
            ("FunctionCall/2", expr("FunctionCall", V("fn"), arr(a, b), names=("name", "args")), (a, b))]


def rules(prog):
    r = []
    for b in prog.fns():
        t = [b.locals[i] for i in range(1, b.nargs + 1)]
        if "::tests::" in b.name or "{closure" in b.name or len(t) != 3 or not b.locals[0].startswith(OPT):
            continue
        if t[1] == "&std::sync::Arc<core::expr::Expr>" and "Context" in t[2] and b.name.startswith("<") and " as " in b.name:
            r.append(b)
    return r


def flag(prog, b, method):
    """constant a rule's method returns, None when the rule does not have the method"""
    m = prog.bodies.get(b.name.rsplit("::", 1)[0] + "::" + method)
    if m is None:
        return None
    it = Interp(prog, max_outs=10)
    st = State()
    st.mem[("H", "self")] = V("self")
    try:
        o = [x for x in it.run(st, m, [("ptr", ("H", "self"), (), False)]) if x.kind == "ret"]
        return it.deep(o[0].st, o[0].val) if len(o) == 1 else None
    except Give:
        return None


def setup(prog):
    models = den.build_models(prog)
    for n in ("is_zero_num", "is_one_num", "is_neg_one_num", "as_number"):
        models[f"{EXPR}::{n}"] = (lambda n: lambda I_, st, args, r, d, tys: ("app", n, I_.deep(st, args[0])))(n)
    for n in ("get_by_symbol", "get"):
        models[f"functions::registry::Registry::{n}"] = lambda I_, st, args, r, d, tys: ("app", "registry", I_.deep(st, args[-1]))
    return models


def agree(got, want, tiny):
    if tiny:
        return abs(got - want) <= mpf(10) ** -11 * max(abs(got), abs(want)) + mpf(10) ** -28
    return close(got, want, mpf(10) ** -9)


def canonical(n):
    """what the constructors can build: no nested sums or products, at most one literal in each"""
    k = n[0]
    if k in ("sum", "prod"):
        if any(c[0] == k for c in n[1]) or sum(c[0] == "num" for c in n[1]) > 1 or len(n[1]) < 2:
            return False
        if k == "prod" and any(c[0] == "num" and c[1] in (0, 1) for c in n[1]) or k == "sum" and any(c[0] == "num" and c[1] == 0 for c in n[1]):
            return False
    return all(canonical(c) for c in trees.children(n))


def corner(n, sv):
    """the value hinges on a convention or is not numerically separable: 0^0, near-poles"""
    if n[0] == "pow":
        try:
            if abs(value(n[1], sv)) < 1e-30 and abs(value(n[2], sv)) < 1e-30:
                return True
        except (Und, Unk):
            pass
    try:
        if abs(value(n, sv)) > mpf(10) ** 9:
            return True
    except (Und, Unk):
        pass
    return any(corner(c, sv) for c in trees.children(n))


def has_tiny(n):
    if n[0] == "num":
        return 0 < abs(n[1]) < 1e-8 or 0 < abs(n[1] - 1) < 1e-8
    return any(has_tiny(c) for c in trees.children(n))


def pick(key, n):
    def f(r, g):
        if key == "Number":
            return {V("n"): g.number()}
        if key == "Symbol":
            return {V("s"): g.ftrue.get(V("s")) or r.choice(["x", "y", "pi", "e"])}
        if key.startswith("FunctionCall"):
            nm = g.ftrue.get(V("fn"))
            return {V("fn"): nm or r.choice([x for x in g.fhint if den.arity(x) == n] or [x for x in FN if den.arity(x) == n])}
        return {}
    return f


def search(names, pc, leaves, rng, tries, want, skip, fx, hooks):
    """(valuation, surely on the path) for trees that follow the path as far as its conditions are understood"""
    g = Gen(pc, rng, names)
    if g.dead:
        return [], "infeasible"
    found, seen, unk = [], set(), None
    sure = 0
    for _ in range(tries):
        b = g.trees(leaves)
        b.update(fx(rng, g))
        key = tuple(sorted(b.items(), key=repr))
        if key in seen:
            continue
        seen.add(key)
        v = TreeVal(names, b, POINTS[0], hooks)
        try:
            if v.pc_holds(pc, skip):
                found.insert(sure, (v, True))
                sure += 1
                if sure >= want:
                    break
        except Unk as u:
            unk = u
            if len(found) - sure < want:
                found.append((v, False))
    return found[:max(want, sure)], unk


def extract(prog, models, b, e, sh, budget, restarts, deadline):
    """paths of the rule on e: all of them when the budget allows, otherwise those found within it and random ones"""
    outs, why, called = [], {}, set()
    some, done = set(), 0
    for k in range(6 * restarts + 1):
        it = Interp(prog, models=dict(models), max_outs=20000, max_steps=4 * budget)
        it.unroll = 8
        it.shapes = sh
        it.soft = budget if k == 0 else 0
        it.rng = random.Random(k)
        st = State()
        st.mem[("H", "e")] = e
        st.mem[("H", "ctx")] = V("ctx")
        st.mem[("H", "self")] = V("self")
        given = False
        try:
            new = [(o.st.pc, it.deep(o.st, o.val) if o.kind == "ret" else None)
                   for o in it.run(st, b, [("ptr", ("H", x), (), False) for x in ("self", "e", "ctx")]) if o.kind in ("ret", "panic")]
            new = [(pc, t) for pc, t in new if t is None or not (t[0] == "adt" and t[2] == "None")]
            done += 1
            outs += new
            some |= {t for _, t in new}
        except Give as g:
            why[str(g)[:80]] = why.get(str(g)[:80], 0) + 1
            given = True
        called |= it.called
        if k == 0 and not given and not it.partial:
            break
        if time.time() > deadline or k > restarts and len(some) > 40 or k > 200 and not done:
            break
    return outs, why, called


def judge(prog, rep, names, models, b, want=4, only=None, budget=60000, restarts=1500, limit=60):
    rname = b.name[1:].split(" as ")[0].split("::")[-1]
    alters = flag(prog, b, "alters_domain")
    alters = alters is not None and alters[0] == "b" and alters[1]
    bad, unk = {}, {}
    tally = dict(good=0, paths=0, dead=0, lost=0)

    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    sh = lambda v, name: {"Sum": [("0", [2])], "Product": [("0", [2])], "FunctionCall": [("args", [1])]}.get(name, [])
    wide = lambda v, name: {"Sum": [("0", [2, 3])], "Product": [("0", [2, 3])], "FunctionCall": [("args", [1, 2])]}.get(name, [])
    hooks = {"prog": trees.Sums(prog, models, wide)}
    def follow(key, e, leaves, pc, t, rng, tries):
        safe = True
        for a, x in pc.items():
            if a[0] == "fld" and a[-1] == "domain_safe":
                safe = x
        skip = lambda a: any(y == ("var", "ctx") for y in den.walk(a))
        found, u = search(names, pc, list(leaves), rng, tries, want, skip, pick(key, len(leaves)), hooks)
        if not found:
            tally["dead" if u == "infeasible" else "lost"] += 1
            return
        some, missed = 0, None
        for v0, sure in found:
            tree = v0.res(e)
            tiny = has_tiny(tree)
            sure = sure and all(canonical(c) for c in trees.children(tree))
            if t is None:
                if sure:
                    bad.setdefault("panic", f"the rule panics on {show(tree)}")
                continue
            hits, miss = 0, None
            for sv in POINTS + EXTRA:
                v = v0.with_point(sv)
                try:
                    w = value(tree, sv)
                    if corner(tree, sv):
                        continue
                except (Und, Unk):
                    continue
                try:
                    got = v.e(t)
                except Und:
                    if safe and not alters and sure:
                        bad.setdefault("domain", f"{show(tree)} at {pt(sv)} is {mpmath.nstr(w, 8)} but the rewritten expression has no value")
                    continue
                except Unk as x:
                    k = f"{key}: {x}"[:160]
                    unk[k] = unk.get(k, 0) + 1
                    break
                if agree(got, w, tiny):
                    hits += 1
                else:
                    miss = miss or f"{show(tree)} at {pt(sv)} is {mpmath.nstr(w, 8)} but the rewritten expression is {mpmath.nstr(got, 8)}"
            tally["good"] += hits
            some += hits
            if miss and alters and sure:
                missed = missed or miss
            elif miss:
                if sure:
                    bad.setdefault("value", miss)
                else:
                    unk[f"{key}: {miss[:200]} (on a path not fully understood)"] = 1
        if missed and not some:
            bad.setdefault("value", missed)

    for key, e, leaves in templates():
        if only and key != only:
            continue
        t0 = time.time()
        signal.setitimer(signal.ITIMER_REAL, limit * 1.2)
        try:
            outs, why, called = extract(prog, models, b, e, sh, budget, restarts, t0 + limit / 2)
        except Late:
            unk[f"{key}: time limit"] = 1
            continue
        for g, n in why.items():
            unk[f"{key}: {g}"] = n
        rep.functions |= called | {b.name}
        rng = random.Random(sum(map(ord, rname + key)))
        seen, u = set(), []
        for pc, t in outs:
            k = (frozenset(pc.items()), t)
            if k not in seen:
                seen.add(k)
                u.append((pc, t))
        outs = u
        if len(outs) > MAXP:
            unk[f"{key}: {len(outs) - MAXP} of {len(outs)} paths not examined"] = 1
            outs = [outs[i * len(outs) // MAXP] for i in range(MAXP)]
        tries = max(30, min(150, 12000 // max(1, len(outs))))
        rng.shuffle(outs)
        signal.setitimer(signal.ITIMER_REAL, max(5, t0 + limit * 1.3 - time.time()))
        try:
            for pc, t in outs:
                if t is not None and (t[0] != "adt" or t[2] != "Some"):
                    unk[f"{key}: result {repr(t)[:60]}"] = 1
                    continue
                tally["paths"] += t is not None
                follow(key, e, leaves, pc, t and t[4][0], rng, tries)
        except Late:
            unk[f"{key}: time limit"] = 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    for k, m in bad.items():
        rep.violate(f"{rname}:{k}", b.name, f"{rname}{'' if k == 'panic' else f' changes the {k}'}: {m}")
    return dict(rule=rname, template=only, unk=unk, bad=sorted(bad), **tally)


def pt(sv):
    return ", ".join(f"{k}={mpmath.nstr(x, 4)}" for k, x in sv.items())


def run(prog, rep):
    names = den.known_names(prog)
    models = setup(prog)
    rs = rules(prog)
    rep.floor("simplification rules", len(rs), 60)
    keys = [k for k, _, _ in templates()]
    jobs = [(b, k) for k in sorted(keys, key=lambda k: not k.endswith("/3")) for b in rs]
    st = fw.parallel(rep, [(lambda sub, b=b, k=k: judge(prog, sub, names, models, b, only=k)) for b, k in jobs], limit=700)
    per = {}
    for (b, k), d in zip(jobs, st):
        if d:
            x = per.setdefault(d["rule"], dict(good=0, paths=0, dead=0, lost=0, unk={}, bad=[]))
            for f in ("good", "paths", "dead", "lost"):
                x[f] += d[f]
            x["unk"].update(d["unk"])
            x["bad"] += d["bad"]
    for n, d in sorted(per.items()):
        if d["bad"]:
            continue
        if d["good"]:
            rep.ok(f"{n}: {d['good']} agreements, {d['paths']} rewriting paths ({d['dead']} infeasible, {d['lost']} without an instance)")
        else:
            rep.undec(n, ", ".join(f"{k} x{m}" for k, m in list(d["unk"].items())[:4]) or f"no instance for any of {d['paths']} rewriting paths")
    rep.stats = per
