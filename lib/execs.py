"""Transfer function of every bytecode instruction in every executor.

Executors are found structurally: functions with a switch over the instruction enum (the enum with the
most variants among those switched over in functions touching f64 memory) that are not reached from
another executor.  For each arm the abstract interpreter gives the effect on the operand stack relative
to its symbolic height, on the cache, and the values read."""
from sx import *
import sx
from mir import callee

NUMERIC = {"f64", "i32", "usize", "T", "u32", "i64", "bool", "&[f64]", "&[T]", "u64"}


def numeric_leaf(prog):
    """predicate: numeric kernels kept uninterpreted: free functions over scalars that loop, are large, or
    branch around other kernels; branch-free wrappers are interpreted through"""
    memo = {}

    def f(n, depth=0):
        if n in memo:
            return memo[n]
        memo[n] = False
        b = prog.get(n)
        r = False
        if b and b.kind == "Fn" and b.nargs and depth < 12:
            tys = b.locals[1:1 + b.nargs]
            if all(t in NUMERIC for t in tys):
                live = [k for k in b.blocks if not k["cu"]]
                r = bool(b.loops()) or len(live) > 40
                if not r and any(k["t"][0] == "switch" for k in live):
                    r = any(f(c, depth + 1) for c in (callee(t) for _, t in b.calls()) if c)
        memo[n] = r
        return r
    return f


def instruction_enum(prog):
    """the bytecode enum: the local enum with most variants that has variants with u32 payloads and is switched
    over by functions performing float arithmetic"""
    best = None
    for n, a in prog.adts.items():
        if a["kind"] == "Enum" and len(a["variants"]) > 40:
            cnt = 0
            for b in prog.fns():
                if any(is_switch_on(b, i, n) for i in range(len(b.blocks))):
                    cnt += 1
            if best is None or cnt > best[0]:
                best = (cnt, n)
    return best[1] if best else None


def is_switch_on(b, i, adt):
    k = b.blocks[i]
    if k["cu"]:
        return False
    t = k["t"]
    if t[0] != "switch" or t[1][0] == "k":
        return False
    p = t[1][1]
    for s in k["s"]:
        if s[0] == "=" and s[1] == p and s[2][0] == "discr" and s[2][2] == adt:
            return len(t[3])
    return False


def switches(b, adt):
    return [(i, is_switch_on(b, i, adt)) for i in range(len(b.blocks)) if is_switch_on(b, i, adt)]


def executors(prog, adt):
    """-> list of (body, header or None): functions whose dispatch arms compute floats"""
    cands = []
    for b in prog.fns():
        for i, n in switches(b, adt):
            if n >= 40:
                cands.append((b, i, n))
    # dispatchers that do float work: they (or callees) call a float function in some arm
    ex = []
    for b, i, n in cands:
        if any(isfloatcall(callee(t) or "") for _, t in b.calls()):
            ex.append((b, i, n))
    names = {b.name for b, _, _ in ex}
    called = set()
    for b, _, _ in ex:
        for _, t in b.calls():
            c = callee(t)
            if c in names and c != b.name:
                called.add(c)
    return [(b, i, n) for b, i, n in ex if b.name not in called], ex


def isfloatcall(n):
    return n.endswith("::sin") or n.endswith("::cos") or "f64>::exp" in n or n.endswith("::exp")


class Effect:
    """effect of one instruction: delta (net stack growth), writes {offset from entry height: term},
    reads handled inside terms as ('st', offset) / ('ca', slot)"""
    def __init__(self):
        self.outs = []


def raw(prog, body, hdr_switch, adt, interp_kw=None):
    """[(variant, entry State, exit State, interp)] for every path through every arm of the executor"""
    leaf = numeric_leaf(prog)
    it = Interp(prog, opaque=leaf, **(interp_kw or {}))
    res = []
    in_loop = any(hdr_switch in bl for bl in body.loops().values())
    if in_loop:
        def hook(interp, b, header, entry, backs, exits, tag):
            if b.name == body.name and hdr_switch in b.loops()[header]:
                res.append((entry, backs, exits, header, tag))
        it.loop_hooks.append(hook)
        st = State()
        args = mkargs(st, body)
        it.final = it.run(st, body, args)
        return it, "loop", res
    st = State()
    args = mkargs(st, body)
    entry = st.copy()
    outs = it.run(st, body, args)
    return it, "fn", [(entry, outs, [], None, None)]


def mkargs(st, body):
    args = []
    for i in range(1, body.nargs + 1):
        ty = body.locals[i]
        if ty.startswith(("&mut", "*mut")):
            root = ("H", f"arg{i}")
            st.mem[root] = ("var", f"arg{i}")
            args.append(("ptr", root, (), True))
        elif ty.startswith("&"):
            root = ("H", f"arg{i}")
            st.mem[root] = ("var", f"arg{i}")
            args.append(("ptr", root, (), False))
        else:
            args.append(("var", f"arg{i}"))
    return args
