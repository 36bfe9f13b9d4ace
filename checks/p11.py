"""P11: expression constructors denote the operation they name."""
import random
import re
import signal
import time
import fw
from sx import *
import sx, den, trees, polys, p10
from polys import PVal
from trees import Miss, POINTS, show, value
from tmpl import expr, arr, V, EK, POLY
from den import mpf, mpmath, Und, Unk, EXPR

RULE = ("Every constructor of sums, products, quotients, powers, polynomials and function calls is interpreted abstractly on opaque operands; calls of other "
        "constructors and of polynomial operations stand for what they must compute (each is analysed on its own). For operands that follow a path, the "
        "expression the path builds must have the value of the operation at every sample point.")
PREDS = ("is_zero_num", "is_one_num", "is_neg_one_num", "as_number")


def summarised(prog, target):
    """helpers over expressions that return a number, a truth value or an order: kept as calls, evaluated through their own paths"""
    m = {}
    for b in prog.fns():
        if b.name == target or "::tests::" in b.name or "{closure" in b.name or b.nargs == 0 or not b.name.startswith(("core::expr::", "<core::expr::", "core::poly::")):
            continue
        ins = [re.sub(r"^(&(mut )?|std::sync::Arc<|std::boxed::Box<)+", "", b.locals[i]).rstrip(">") for i in range(1, b.nargs + 1)]
        if all(t == EXPR for t in ins) and re.fullmatch(r"(std::option::Option<u64>|u64|bool|std::cmp::Ordering|std::option::Option<core::poly::Polynomial>)", b.locals[0]) and not b.locals[1].startswith("&mut"):
            m[b.name] = (lambda n: lambda I_, st, args, r, d, tys: ("app", n) + tuple(I_.deep(st, a) for a in args))(b.name)
    for n in ("core::expr::hash::compute_expr_hash", "core::expr::next_id"):
        m[n] = (lambda n: lambda I_, st, args, r, d, tys: ("app", n) + tuple(I_.deep(st, a) for a in args))(n)
    return m


def listers(prog):
    """helpers that build an expression from a list: evaluated through their own paths for each length"""
    r = set()
    for b in prog.fns():
        if b.nargs == 1 and b.locals[0] == EXPR and re.fullmatch(r"std::vec::Vec<(std::sync::Arc<)?core::expr::Expr>?>", b.locals[1]) \
                and b.name.startswith("core::expr::") and not b.name.startswith(f"{EXPR}::") and "::tests::" not in b.name and "{closure" not in b.name:
            r.add(b.name)
    return r


class Lists:
    def __init__(self, prog, models, shapes):
        self.prog, self.models, self.shapes, self.memo = prog, models, shapes, {}
        self.part = set()

    def outs(self, name, k):
        if (name, k) not in self.memo:
            b = self.prog.get(name)
            xs = [V(f"$l{i}") for i in range(k)]
            models = {n: m for n, m in self.models.items() if n != name}
            got, part = explore(self.prog, models, b, [arr(*xs)], self.shapes, 150000, 100, set())
            if part:
                self.part.add((name, k))
            self.memo[(name, k)] = got
        return self.memo[(name, k)]


def explore(prog, models, b, args, shapes, budget, seconds, called, more=400):
    """paths of a function: all of them when the budget allows, otherwise those found within it and random ones"""
    outs, t0, why = [], time.time(), {}
    part = True
    for k in range(more):
        it = Interp(prog, models=dict(models), max_outs=20000, max_steps=4 * budget)
        it.unroll = 8
        it.unroll_paths = 800
        it.shapes = shapes
        it.soft = budget if k == 0 else 3000
        it.rng = random.Random(k)
        st = State()
        av = []
        for i, x in enumerate(args):
            if b.locals[i + 1].startswith("&"):
                st.mem[("H", f"a{i}")] = x
                av.append(("ptr", ("H", f"a{i}"), (), False))
            else:
                av.append(x)
        try:
            outs += [(o.kind, o.st.pc, it.deep(o.st, o.val) if o.kind == "ret" else None) for o in it.run(st, b, av) if o.kind in ("ret", "panic")]
            if not it.partial:
                part = False
                break
        except Give as g:
            why[str(g)[:80]] = 1
        called |= it.called | {b.name}
        if time.time() - t0 > seconds:
            break
    called |= {b.name}
    seen, u = set(), []
    for o in outs:
        key = (o[0], frozenset(o[1].items()), o[2])
        if key not in seen:
            seen.add(key)
            u.append(o)
    return u, part or why


class CVal(PVal):
    """hashes are an injective image of the tree, except that equality of two hashes may always be a collision; the order of
    expressions is any"""

    def optv(self, t):
        if t[0] == "adt":
            return ("some", self.any_value(t[4][0])) if t[2] == "Some" else None
        if t[0] == "app":
            v, r = self.through(t)
            return v.optv(r)
        raise Unk("option")

    def listed(self, t):
        """(valuation, result term) of a helper over a list"""
        xs = tuple(self.items(t[2]))
        memo = self.hooks.setdefault("listed", {})
        key = (t[1], xs, repr(self.sv))
        if key not in memo:
            memo[key] = []
            for kind, pc, r in self.hooks["lists"].outs(t[1], len(xs)):
                v = self.scoped({V(f"$l{i}"): x for i, x in enumerate(xs)})
                try:
                    if v.pc_holds(pc):
                        memo[key].append((kind, v, r))
                except Unk:
                    pass
        # equal hashes of different operands make more than one path possible: one after the other
        n = len(memo[key])
        if not n:
            raise Unk(f"no path of {t[1]} for {len(xs)} elements")
        self.hooks["choices"] = max(n, self.hooks.get("choices", 1))
        kind, v, r = memo[key][min(self.hooks.get("pick", 0), n - 1)]
        if kind == "panic":
            raise Panics()
        return v, r

    def _e(self, t):
        if t[0] == "app" and t[1] in self.hooks["listers"]:
            v, r = self.listed(t)
            return v.e(r)
        if t == ("static", "core::expr::EXPR_ONE"):
            return mpf(1)
        return super()._e(t)

    def _res(self, t):
        if t == ("static", "core::expr::EXPR_ONE"):
            return ("num", 1.0)
        if t[0] == "app" and t[1] in self.hooks["listers"]:
            v, r = self.listed(t)
            return v.res(r)
        if t[0] == "fld" and t[2] == "" and t[3] in ("hash", "term_hash"):
            return ("hash", self.res(t[1]))
        return super()._res(t)

    def atom_holds(self, a, x):
        om = self.hooks.setdefault("order", {})
        if id(a) not in om:
            om[id(a)] = (a, any(y[0] == "app" and y[1] in ORDER for y in den.walk(a)))
        if om[id(a)][1]:
            return True
        if a[0] == "op" and a[1] == "eq":
            try:
                p, q = (self.optv(z) if z[0] == "app" or z[0] == "adt" and z[1].endswith("Option") else ("some", self.any_value(z)) for z in a[2:4])
                hp, hq = ishash(p), ishash(q)
                if hp and hq:
                    return x or p != q
                if hp or hq:
                    return not x
                if p is None or q is None:
                    return (p == q) == x
            except (Unk, Und):
                pass
        return super().atom_holds(a, x)


def ishash(p):
    return p is not None and isinstance(p[1], tuple) and len(p[1]) == 2 and p[1][0] == "hash"


class Panics(Exception):
    pass


ORDER = set()


def targets(prog):
    """(name, arguments, operands, meaning)"""
    a, b, c = V("a"), V("b"), V("c")
    r = []

    def add(nm, args, ops, f):
        r.append((nm, args, ops, f))
    for n, op in (("sum", "sum"), ("sum_from_arcs", "sum"), ("product", "prod"), ("product_from_arcs", "prod"), ("mul_from_arcs", "prod")):
        for k in (0, 1, 2, 3):
            xs = (a, b, c)[:k]
            add(n, [arr(*xs)], xs, (lambda op: lambda *t: (op, t))(op))
    neg = lambda x: ("prod", (("num", -1.0), x))
    add("add_expr", [a, b], (a, b), lambda x, y: ("sum", (x, y)))
    add("sub_expr", [a, b], (a, b), lambda x, y: ("sum", (x, neg(y))))
    add("mul_expr", [a, b], (a, b), lambda x, y: ("prod", (x, y)))
    for n in ("div_expr", "div_from_arcs"):
        add(n, [a, b], (a, b), lambda x, y: ("div", x, y))
    for n in ("pow_static", "pow_from_arcs"):
        add(n, [a, b], (a, b), lambda x, y: ("pow", x, y))
    add("negate", [a], (a,), neg)
    add("unwrap_arc", [a], (a,), lambda x: x)
    add("number", [V("n")], (), None)
    add("poly", [V("p")], (), None)
    return r


def operands(rng, n, nm):
    deep = 1 if nm.startswith("pow") else 2
    xs = [polys.pool(rng, deep) for _ in range(n)]
    if n > 1 and rng.random() < 0.25:
        xs[1] = xs[0]
    if n > 1 and nm.startswith(("pow", "div")) and rng.random() < 0.5:
        xs = [("num", rng.choice((0.0, 1.0, 2.0, 3.0, -1.0, -8.0, 0.5, 1e-8, 4.0, 6.0, 1e-20))) if rng.random() < 0.6 else xs[0],
              ("num", rng.choice((0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 2.5, -2.0, 1 / 3, 4.0, 1e-20)))]
    return xs


def judge(prog, rep, names, allm, nm, args, ops, ref, budget=60000, samples=700, limit=110):
    label = f"{nm}/{len(ops)}"
    b = prog.get(f"{EXPR}::{nm}")
    res = dict(nm=label, n=0, unk={}, bad=0, paths=0)
    if b is None or b.nargs != len(args):
        res["unk"]["no such constructor"] = 1
        return res
    models = {**allm, **polys.models(prog), **summarised(prog, b.name)}
    for n in PREDS:
        models[f"{EXPR}::{n}"] = allm[f"{EXPR}::{n}"]
    models.pop(b.name, None)
    ORDER.update(x for x in models if prog.get(x) is not None and prog.get(x).locals[0] == "std::cmp::Ordering")
    lists = listers(prog)
    for n in lists:
        models[n] = (lambda n: lambda I_, st, args, r, d, tys: ("app", n) + tuple(I_.deep(st, a) for a in args))(n)
    models["<[T]>::swap"] = lambda I_, st, args, r, d, tys: UNIT
    for k in ("<[T]>::sort_unstable_by", "<[T]>::sort_by", "<[T]>::sort_by_cached_key"):
        # any order of the operands is taken for the sorted one
        models[k] = lambda I_, st, args, r, d, tys: UNIT
    shapes = lambda v, name: {"Sum": [("0", [2])], "Product": [("0", [2])], "FunctionCall": [("args", [1])]}.get(name, [])
    wide = lambda v, name: {"Sum": [("0", [2, 3])], "Product": [("0", [2, 3])], "FunctionCall": [("args", [1, 2])]}.get(name, [])
    through = {**allm, **polys.models(prog), **{n: allm[f"{EXPR}::{n}"] for n in ()}}
    hooks = {"prog": trees.Sums(prog, through, wide), "lists": Lists(prog, models, shapes), "listers": lists}
    t0 = time.time()

    def follow(v, t, tree, ts):
        for sv in POINTS[:4]:
            w = v.with_point(sv)
            w.rmemo = {}
            try:
                want = mpf(0) if tree == ("sum", ()) else mpf(1) if tree == ("prod", ()) else value(tree, sv)
                if p10.corner(tree, sv):
                    continue
            except (Und, Unk):
                continue
            try:
                got = w.e(t)
            except Und:
                got = None
            except Panics:
                rep.violate(f"{nm}:panic", b.name, f"Expr::{nm} panics on {', '.join(map(show, ts))}")
                res["bad"] = 1
                return True
            except (Unk, Miss) as e:
                k = str(e)[:80]
                res["unk"][k] = res["unk"].get(k, 0) + 1
                return False
            if got is None or not p10.agree(got, want, True):
                why = " when hashes of different operands coincide" if hooks["pick"] else ""
                rep.violate(f"{nm}", b.name, f"Expr::{nm}({', '.join(map(show, ts))}) is {'undefined' if got is None else mpmath.nstr(got, 8)} at {p10.pt(sv)} instead of {mpmath.nstr(want, 8)}{why}")
                res["bad"] = 1
                return True
            res["n"] += 1
        return False

    def late(*_):
        raise p10.Late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    outs, why = [], {}
    try:
        outs, part = explore(prog, models, b, args, shapes, budget, limit / 3, rep.functions)
        why = part if isinstance(part, dict) else {"paths not exhausted": 1} if part else {}
        res["paths"] = len(outs)
        rng = random.Random(sum(map(ord, label)))
        hitp = set()
        for _ in range(samples):
            bind, ts = {}, operands(rng, len(ops), nm)
            bind.update(zip(ops, ts))
            if nm == "number":
                bind[V("n")] = mpf(rng.choice((0.0, 1.0, -2.5, 1e-20)))
                tree = ("num", float(bind[V("n")]))
            elif nm == "poly":
                bind[V("p")] = tree = ("poly", ("sym", "x"), rng.choice(((), ((0, 2.0),), ((0, 1e-20),), ((1, 1.0),), ((0, 1.0), (2, -3.0)), ((3, 2.0),))))
            else:
                tree = ref(*ts)
            v = CVal(names, bind, POINTS[0], hooks)
            for k, x in bind.items():
                if isinstance(x, mpf):
                    v.env[k] = x
            for pi, (kind, pc, t) in enumerate(outs):
                try:
                    if not v.pc_holds(pc):
                        continue
                except (Unk, Und) as e:
                    k = str(e)[:80]
                    res["unk"][k] = res["unk"].get(k, 0) + 1
                    continue
                if kind == "panic":
                    if any("overflow" in str(x) for x in pc):
                        continue
                    rep.violate(f"{nm}:panic", b.name, f"Expr::{nm} panics on {', '.join(map(show, ts))}")
                    res["bad"] = 1
                    return res
                hitp.add(pi)
                hooks["choices"], hooks["pick"] = 1, 0
                while hooks["pick"] < min(hooks["choices"], 12):
                    if follow(v, t, tree, ts):
                        return res
                    hooks["pick"] += 1
        res["hit"] = len(hitp)
    except p10.Late:
        res["unk"]["time limit"] = 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["unk"].update(why)
    return res


def strip(t):
    """conversions between handles do not change what is denoted"""
    while isinstance(t, tuple) and t and t[0] == "app" and len(t) == 3 and re.search(r"::(into|from|as_ref|clone|new|borrow|deref|to_vec|into_vec|symb_interned)$", t[1]):
        t = t[2]
    return t


STRUCT = {"symbol": ("Symbol", {"0": 0}), "from_interned": ("Symbol", {"0": 0}),
          "func": ("FunctionCall", {"name": 0, "args": [1]}), "func_symbol": ("FunctionCall", {"name": 0, "args": [1]}),
          "func_symbol_arc": ("FunctionCall", {"name": 0, "args": [1]}),
          "func_multi": ("FunctionCall", {"name": 0, "args": 1}), "func_multi_symbol": ("FunctionCall", {"name": 0, "args": 1}),
          "func_multi_from_arcs": ("FunctionCall", {"name": 0, "args": 1}), "func_multi_from_arcs_symbol": ("FunctionCall", {"name": 0, "args": 1}),
          "call": ("FunctionCall", {"name": 0, "args": 1}),
          "derivative": ("Derivative", {"inner": 0, "var": 1, "order": 2}), "derivative_interned": ("Derivative", {"inner": 0, "var": 1, "order": 2})}


def structure(prog, rep, allm, nm):
    """constructors of symbols, calls and derivatives: the node holds exactly the operands, in their places"""
    b = prog.get(f"{EXPR}::{nm}")
    if b is None:
        rep.undec(nm, "no such constructor")
        return
    models = {n: f for n, f in allm.items() if n != b.name and not (n.startswith(f"{EXPR}::") and n.rsplit("::", 1)[1] in STRUCT)}
    for n in ("core::expr::hash::compute_expr_hash", "core::expr::next_id", "core::symbol::registry::symb_interned"):
        models[n] = (lambda n: lambda I_, st, args, r, d, tys: ("app", n) + tuple(I_.deep(st, a) for a in args))(n)
    into = models.get("<T as std::convert::Into<U>>::into")
    models["<T as std::convert::Into<U>>::into"] = lambda I_, st, args, r, d, tys: args[0] if args[0][0] == "arr" else into(I_, st, args, r, d, tys) if into else ("app", "<T as std::convert::Into<U>>::into", I_.deep(st, args[0]))
    args, many = [], arr(V("e0"), V("e1"), V("e2"))
    for i in range(b.nargs):
        args.append(many if re.match(r"std::vec::Vec|\[", b.locals[i + 1]) else V(f"v{i}"))
    outs, part = explore(prog, models, b, args, lambda v, n: [], 20000, 10, rep.functions)
    node, want = STRUCT[nm]
    for kind, pc, r in outs:
        k = r and trees_kind(r)
        if kind != "ret" or k is None or k[0] != "adt":
            rep.undec(nm, f"result {str(r)[:60]}")
            return
        fs = dict(zip(k[3], k[4]))
        bad = [] if k[2] == node else [f"builds a {k[2]}"]
        for f, i in want.items() if not bad else ():
            got = fs.get(f)
            exp = tuple(strip(x) for x in (many[1] if args[i if not isinstance(i, list) else i[0]] == many else (args[i[0] if isinstance(i, list) else i],)))
            isl = f == "args"
            g = strip(got)
            have = tuple(strip(x) for x in g[1]) if isl and g[0] == "arr" else (g,)
            if isl and g[0] != "arr":
                rep.undec(nm, f"arguments {str(g)[:60]}")
                return
            if have != exp:
                known = all(x[0] == "var" or x[0] in ("i", "f") for x in have)
                if not known:
                    rep.undec(nm, f"{f}: {str(have)[:60]}")
                    return
                bad.append(f"{f} is {', '.join(show_t(x) for x in have)} instead of {', '.join(show_t(x) for x in exp)}")
        if bad:
            rep.violate(f"{nm}:structure", b.name, f"Expr::{nm}: {'; '.join(bad)}")
            return
    if part or not outs:
        rep.undec(nm, f"paths {part}")
    else:
        rep.ok(f"{nm}: {node} node with the operands in their places")


def show_t(x):
    return str(x[1])


def trees_kind(r):
    if r[0] == "adt" and r[1] == EXPR:
        return dict(zip(r[3], r[4])).get("kind")
    return None


def predicates(prog, rep, names, allm):
    """the tests for numbers that the constructors (and most rules) branch on"""
    spec = {"is_zero_num": lambda n: n == 0, "is_one_num": lambda n: abs(n - 1) < mpf("2e-14"), "is_neg_one_num": lambda n: abs(n + 1) < mpf("2e-14"), "as_number": None}
    for nm, f in spec.items():
        b = prog.get(f"{EXPR}::{nm}")
        if b is None:
            rep.undec(nm, "no such method")
            continue
        models = {n: m for n, m in allm.items() if n != b.name}
        outs, part = explore(prog, models, b, [V("a")], lambda v, n: [], 20000, 10, rep.functions)
        rng, n, why = random.Random(1), 0, None
        ts = [("num", x) for x in (0.0, 1.0, -1.0, 2.0, 1e-20, -1e-20, 0.5, -3.0, 1.0001, -1.0001, 1e-13, 1e15)] + [polys.pool(rng, 2) for _ in range(60)]
        hooks = {"prog": trees.Sums(prog, allm, lambda v, n: [])}
        for t in ts:
            v = polys.PVal(names, {V("a"): t}, POINTS[0], hooks)
            for kind, pc, r in outs:
                try:
                    if not v.pc_holds(pc):
                        continue
                    if nm == "as_number":
                        # None or Some(the number)
                        got = None if r[2] == "None" else v.f(r[4][0])
                        want = mpf(t[1]) if t[0] == "num" else None
                    else:
                        got = r[1] if r[0] == "b" else v.cond(r)
                        want = t[0] == "num" and f(mpf(t[1]))
                except (Unk, Und, Miss, TypeError) as e:
                    why = str(e)[:60]
                    continue
                n += 1
                if got != want:
                    rep.violate(f"{nm}:predicate", b.name, f"Expr::{nm}({show(t)}) is {got} instead of {want}")
                    break
            else:
                continue
            break
        else:
            if n:
                rep.ok(f"{nm}: {n} operands")
            else:
                rep.undec(nm, why or "no path")


def run(prog, rep):
    names = den.known_names(prog)
    allm = p10.setup(prog)
    ts = targets(prog)
    for nm in STRUCT:
        structure(prog, rep, allm, nm)
    predicates(prog, rep, names, allm)
    st = fw.parallel(rep, [(lambda sub, t=t: judge(prog, sub, names, allm, *t)) for t in ts], limit=600)
    for d in st:
        if d and not d["bad"]:
            if d["n"]:
                rep.ok(f"{d['nm']}: {d['n']} agreements on {d.get('hit', '?')} of {d['paths']} paths")
            else:
                rep.undec(d["nm"], ", ".join(f"{k} x{m}" for k, m in list(d["unk"].items())[:4]) or "no path followed")
    rep.stats = st
    import os
    if os.environ.get("VV"):
        for d in st:
            print(d and (d["nm"], d["paths"], d.get("hit"), d["n"], list(d["unk"].items())[:3]))
