"""P09: methods and operators of the API build the expression they name."""
from sx import *
import sx, den, fw
from den import Val, FN, ORDERS, Und, Unk, mpf, mp, mpmath, close, fpow
from tmpl import V

RULE = ("Every function of the Rust and Python interface that takes a symbol or an expression and is named after a built-in function or an "
        "arithmetic operator is interpreted abstractly with the expression constructors as free symbols. On every path that returns a "
        "value, the value must be the named function of the operands in their documented positions (orders and base first, the receiver "
        "in the argument position), told apart at sample points with a different value for every operand.")
OPER = ("core::symbol::Symbol", "core::expr::Expr", "std::sync::Arc<core::expr::Expr>", "bindings::python::expr::PyExpr",
        "bindings::python::symbol::PySymbol")
RES = ("core::expr::Expr", "bindings::python::expr::PyExpr", "std::result::Result<bindings::python::expr::PyExpr, pyo3::PyErr>",
       "std::sync::Arc<core::expr::Expr>")
NUM = ("f64", "f32", "i64", "i32", "u32", "u64", "usize", "u8", "i8")
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "div": lambda a, b: a * den.inv_(b), "truediv": lambda a, b: a * den.inv_(b), "pow": fpow}
UN = {"neg": lambda a: -a, "pos": lambda a: a, "abs": abs}
# conversions
SAME = ("from", "into", "to_expr", "clone", "unwrap_arc", "as_expr", "into_expr")
# synonyms of functions in the method names of the interface
SYN = {"powi": "pow", "powf": "pow", "arcsin": "asin", "arccos": "acos", "arctan": "atan"}


def bare(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].replace("mut ", "", 1) if t.startswith("&mut ") else t[1:]
    return t.split("'_ ")[-1]


def expected(name, n):
    """meaning of a method on (receiver, parameters...), or None"""
    if name.startswith("__") and name.endswith("__"):
        m = name[2:-2]
        if m in BIN and n == 2:
            return BIN[m]
        if m.startswith("r") and m[1:] in BIN and n == 2:
            return lambda a, b: BIN[m[1:]](b, a)
        if m in UN and n == 1:
            return UN[m]
        return None
    name = SYN.get(name, name)
    if name in BIN and n == 2:
        return BIN[name]
    if name in ("neg", "negate") and n == 1:
        return UN["neg"]
    if name in SAME and n == 1:
        return lambda a: a
    if name in FN and n == den.arity(name):
        k = ORDERS.get(name, 0)
        f = FN[name]
        if name == "log":
            return lambda x, base: f(base, x)
        if k:
            # receiver is the first argument after the orders
            return lambda x, *ps: f(*ps[:k], x, *ps[k:])
        return f
    return None


POINTS = {0: [("0.7", "1.9", "0.4", "2.3"), ("-0.6", "2.7", "1.3", "0.2"), ("3.3", "-1.4", "0.9", "1.1"), ("1.2", "3", "2", "5"), ("0.3", "2", "0.4", "0.7")],
          1: [("0.7", "2", "1.3"), ("1.6", "1", "0.4"), ("0.35", "3", "2")],
          2: [("0.7", "2", "1", "0.4"), ("0.35", "3", "2", "1.7"), ("0.9", "4", "1", "0.3")]}


def root(term, ops):
    """the operand an opaque leaf stands for"""
    for x in den.walk(term):
        if x[0] == "fld" and x[2] not in ("", "Some", "Ok", "Number"):
            return None          # a part of an operand
    s = {x for x in den.walk(term) if x[0] == "var" and x in ops}
    return next(iter(s)) if len(s) == 1 else None


def run(prog, rep):
    names = den.known_names(prog)
    rep.floor("known symbols", len(names), 40)
    cands = []
    for b in prog.fns():
        if "{closure" in b.name or "__pymethod" in b.name or "::tests::" in b.name or not b.nargs:
            continue
        t = [bare(b.locals[i]) for i in range(1, b.nargs + 1)]
        name = b.name.split("::")[-1].split("#")[0]
        ret = b.locals[0]
        if ret not in RES or not any(x in OPER for x in t) and not (name == "from" and t[0] in NUM):
            continue
        n = b.nargs
        if name in ("__pow__", "__rpow__") and n == 3:
            n = 2          # the modulus of Python's protocol
        f = expected(name, n)
        if f is not None:
            cands.append((b, name, n, t, f))
    rep.floor("methods and operators", len(cands), 150)
    builders = [x for x in den.BUILD]
    jobs = []
    for i in range(0, len(cands), 40):
        jobs.append(lambda sub, ch=cands[i:i + 40]: [judge(prog, sub, names, *c) for c in ch] and None)
    fw.parallel(rep, jobs)


def judge(prog, rep, names, b, name, n, types, f):
    models = den.build_models(prog)
    models.pop(b.name, None)
    key = f"{b.name.split('#')[0]}({', '.join(t.split('::')[-1] for t in types)})"
    it = Interp(prog, models=models, max_outs=400)
    st = State()
    ops = [V(f"o{i}") for i in range(b.nargs)]
    args = []
    for i in range(b.nargs):
        t = b.locals[i + 1]
        if t.startswith("&"):
            st.mem[("H", f"o{i}")] = ops[i]
            args.append(("ptr", ("H", f"o{i}"), (), t.startswith("&mut")))
            if t.startswith("&&"):
                st.mem[("H", f"oo{i}")] = args[-1]
                args[-1] = ("ptr", ("H", f"oo{i}"), (), False)
        else:
            args.append(ops[i])
    try:
        outs = [(o, it.deep(o.st, o.val)) for o in it.run(st, b, args) if o.kind == "ret"]
    except Give as g:
        rep.undec(key, str(g))
        return
    rep.functions |= it.called | {b.name}
    bad, good, why = None, 0, None
    k = ORDERS.get(name, 0)
    for pt in POINTS[k]:
        vals = [mpf(x) for x in pt[:n]]
        if any(ty in ("i32", "i64") for ty in types):
            vals = [mpf(int(x) or 2) if types[i] in ("i32", "i64") else x for i, x in enumerate(vals)]
        try:
            want = den._real(f(*vals))
        except Und:
            continue
        env0 = dict(zip(ops, vals))

        def leaf(t, kind):
            if t[0] in ("symval", "ufn"):
                t = t[1] if t[0] == "symval" else t
            r = root(t, env0) if isinstance(t, tuple) else None
            if r is None:
                raise Unk(f"leaf {str(t)[:600]}")
            return env0[r]
        for o, v in outs:
            r = v
            if r[0] == "adt" and r[1].endswith("Result"):
                if r[2] != "Ok":
                    continue
                r = r[4][0]
            if r[0] == "adt" and "python" in r[1] and len(r[4]) == 1:
                r = r[4][0]
            vv = Val(names, dict(env0), leaf)
            try:
                skip = False
                for a, x in o.st.pc.items():
                    try:
                        if a[0] != "is" and vv.cond(a) != x:
                            skip = True
                    except (Unk, Und):
                        pass
                if skip:
                    continue
                got = vv.e(r)
            except Und:
                got = None
            except Unk as u:
                why = str(u)
                continue
            if got is None or not close(got, want):
                bad = bad or (vals, got, want)
            else:
                good += 1
    if bad:
        vals, got, want = bad
        rep.violate(key, b.name, f"{name} of ({', '.join(mpmath.nstr(x, 4) for x in vals)}) builds an expression with "
                    f"{'no real value' if got is None else 'the value ' + mpmath.nstr(got, 8)}, it should be {mpmath.nstr(want, 8)}")
    elif good:
        rep.ok(f"{key}: {good} agreements")
    else:
        rep.undec(key, why or "no path with a value")
