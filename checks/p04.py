"""P04: every buffer an executor accesses without bounds checks is at least as large as the program needs."""
from sx import *
import sx, vm, execs, agree
from ints import holds
from mir import callee
from models import v0
from p01 import short

RULE = ("(a) The evaluator's constructor is interpreted abstractly: the depth it records must be the running maximum of the declared stack "
        "effects of exactly the instruction array it stores. (b) For every executor and every call site of it the operand stack and the "
        "cache are traced to the memory they live in (fixed array, vector with a known capacity, vector that grows on push); a fixed array "
        "of N cells requires a dominating condition that excludes a recorded need > N, a vector requires capacity >= the recorded need. "
        "(c) Every `set_len` is bounded by the capacity of its vector.")


NAMES = []


def run(prog, rep):
    A, variants, ex = vm.extract(prog)
    size, others = recorded(prog, rep, A)
    rep.notes["fields covering the peak depth"] = sorted(size)
    slots = None
    NAMES[:] = [e.name for e in ex]
    for e in ex:
        slots = executor(prog, rep, A, e, size, slots)
    rep.floor("cache size fields", len(slots or ()), 1)
    rep.notes["fields bounding the cache"] = sorted(slots or ())


# ---- (a) what the constructor records ------------------------------------------------------------
def recorded(prog, rep, A):
    T = None
    for n, a in prog.adts.items():
        if a["kind"] == "Struct" and any("[" + A + "]" in f[1] for v in a["variants"] for f in v["fields"]):
            T = n
    rep.floor("evaluator structs", 1 if T else 0, 1)
    usz = [f[0] for f in prog.adts[T]["variants"][0]["fields"] if f[1] == "usize"]
    ins = [f[0] for f in prog.adts[T]["variants"][0]["fields"] if "[" + A + "]" in f[1]][0]
    ctors = []
    for b in prog.fns():
        if "::tests::" in b.name or b.name.startswith("<"):
            continue
        for k in b.blocks:
            for s in k["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == T:
                    if b not in ctors:
                        ctors.append(b)
    rep.floor("constructors", len(ctors), 1)
    covering = None
    for b in ctors:
        def opq(n):
            f = prog.get(n)
            return not (f and f.locals[0] in ("usize", "i32", "u32", "i64", "isize", "u64") and any("[" + A in t for t in f.locals[1:1 + f.nargs]))
        it = Interp(prog, opaque=opq)
        st = State()
        try:
            outs = it.run(st, b, execs.mkargs(st, b))
        except Give as g:
            rep.undec(b.name, str(g))
            continue
        rep.functions |= it.called | {b.name}
        good = None
        for o in outs:
            if o.kind != "ret" or o.val is None:
                continue
            for v in vm.walk(it.deep(o.st, o.val)):
                if v[0] == "adt" and v[1] == T and len(v) == 5:
                    f = dict(zip(v[3], v[4]))
                    cov = set()
                    verdicts = {}
                    for u in usz:
                        r = measures(prog, it, f[u], f[ins], A)
                        verdicts[u] = r
                        if r is True:
                            cov.add(u)
                    maybe = {u for u, r in verdicts.items() if r is None}
                    if cov:
                        rep.ok(f"{b.name}: {', '.join(sorted(cov))} = running maximum over the stored instructions")
                    elif any(strip1(f[ins]) in list(vm.walk(a)) for a in o.st.pc):
                        cov = {u for u in usz}      # the path's own condition speaks about the stored program (e.g. a failed conversion of its peak)
                    elif maybe:
                        rep.undec(b.name, "recorded depth not understood")
                        cov = maybe
                    else:
                        rep.violate("depth-not-measured", b.name, "no recorded size is measured on the instruction array that is stored; "
                                    "rewriting passes between the compiler's accounting and the stored program can deepen the stack")
                        cov = {"stack_size"} & set(usz)
                    good = cov if good is None else good & cov
        if good is not None:
            covering = good if covering is None else covering & good
    return covering or set(), usz


def strip1(t):
    while True:
        if t[0] == "app" and ("into_boxed_slice" in t[1] or "try_from" in t[1] or "try_into" in t[1] or "::from" in t[1] or "::into" in t[1]
                              or "clone" in t[1] or "to_vec" in t[1]):
            t = t[2]
        elif t[0] == "fld" and t[2] in ("Ok", "Some"):
            t = t[1]
        elif t[0] == "op" and len(t) == 3 and str(t[1]).startswith("cast"):
            t = t[2]
        else:
            return t


def measures(prog, it, t, ins, A):
    """True: t >= peak of ins; False: t does not depend on ins; None: unknown"""
    t = strip1(t)
    ins = strip1(ins)
    if t[0] == "op" and t[1] == "max":
        r = [measures(prog, it, x, ins, A) for x in t[2:]]
        return True if True in r else (None if None in r else False)
    if t[0] == "ite":
        r = [measures(prog, it, x, ins, A) for x in t[2:]]
        return True if all(x is True for x in r) else (None if None in r else False)
    if t[0] == "lin" and t[1] >= 0 and len(t[2]) == 1 and t[2][0][1] == 1:
        return measures(prog, it, t[2][0][0], ins, A)
    if t[0] == "i":
        return False
    if t[0] == "loop":
        return loopmax(t, ins)
    if t[0] == "hof":
        return None
    dep = ins in list(vm.walk(t))
    return None if dep else False


def loopmax(t, ins):
    """('loop', lvl, inits, conts, updates): head is the running maximum of a counter advanced by the declared effects over ins"""
    _, lvl, inits, conts, upds = t
    arrays = [x[1] for x in vm.walk(upds) if x[0] == "idx"]
    eff = [x for x in vm.walk(upds) if x[0] == "app" and any(y[0] == "idx" for y in x[2:])]
    if not eff:
        return None
    if not any(strip1(a) == ins for a in arrays):
        return False
    if not all(strip1(a) == ins for a in arrays):
        return None
    bv = lambda i: ("bv", lvl, i)
    # the depth counter: its update adds an effect application
    dep = None
    for i, us in enumerate(upds):
        for conds, u in us:
            c, d = lin_parts(u)
            if c == 0 and d.get(bv(i)) == 1 and any(k in eff and v == 1 for k, v in d.items()) and len(d) == 2:
                dep = i
    if dep is None or inits[dep] != I(0):
        return None
    newdep = {u for _, u in upds[dep]}
    if len(newdep) != 1:
        return None
    nd = newdep.pop()
    if inits[0][0] != "i" or inits[0][1] < 0:
        return None
    if dep == 0:
        return False      # records the final depth, not the maximum
    for conds, u in upds[0]:
        u = strip1(u)
        if u[0] == "op" and u[1] == "max" and set(map(strip1, u[2:])) == {bv(0), nd}:
            continue
        cs = dict(conds) if not isinstance(conds, dict) else conds
        d1 = iadd(nd, imul(I(-1), bv(0)))
        le = any(lt_atom(a, v, d1) for a, v in cs.items())
        if u == nd:
            # taken when the new depth is larger (or equal)
            if any(lt_atom_pos(a, v, d1) for a, v in cs.items()):
                continue
            return None
        if u == bv(0) and le:
            continue
        return False if u == bv(0) and len(upds[0]) == 1 else None
    return True


def lt_atom(a, v, d1):
    """atom implies d1 <= 0"""
    if a[0] == "op" and a[1] == "lt":
        d = iadd(a[3], imul(I(-1), a[2]))    # a[2] < a[3]  <=> d > 0
        if v is False and d == d1:
            return True
        if v is True and iadd(d, d1) in (I(0), I(1)):
            return True
    return False


def lt_atom_pos(a, v, d1):
    if a[0] == "op" and a[1] == "lt":
        d = iadd(a[3], imul(I(-1), a[2]))
        if v is True and d == d1:
            return True
        if v is False and iadd(d, d1) in (I(0), I(1)):
            return True
    return False


# ---- (b) memory behind the stack and the cache ---------------------------------------------------
def cap_models(log):
    n = [0]

    def wcap(I_, st, args, r, d, tys):
        n[0] += 1
        return ("seq", ("cap", I_.deep(st, args[0]), n[0]), I(0), ())

    def target(I_, st, p):
        while p[0] == "ptr":
            v = I_.load(st, p[1], p[2])
            if v[0] != "ptr":
                return p, v
            p = v
        return None, p

    def reserve(I_, st, args, r, d, tys):
        p, v = target(I_, st, args[0])
        if p is None:
            p2 = ("ptr", ("D", v), (), True)
            v = I_.load(st, p2[1], ())
            p = p2
        ln = I_.length(st, v)
        need = ("plus", ln, I_.deep(st, args[1]))
        base = v[1] if v[0] == "seq" else v
        ws = v[3] if v[0] == "seq" else ()
        I_.store(st, p[1], p[2], ("seq", ("capmin", base, need), ln, ws))
        return UNIT

    def setlen(I_, st, args, r, d, tys):
        p, v = target(I_, st, args[0])
        if p is None:
            return None
        nn = I_.deep(st, args[1])
        log.append((v, nn, dict(st.pc)))
        base = v[1] if v[0] == "seq" else ("var", "uninit")
        I_.store(st, p[1], p[2], ("seq", base, nn, v[3] if v[0] == "seq" else ()))
        return UNIT
    return {"std::vec::Vec::with_capacity": wcap, "std::vec::Vec::reserve": reserve, "std::vec::Vec::reserve_exact": reserve,
            "std::vec::Vec::set_len": setlen}


def self_fields(t):
    return {x[3] for x in vm.walk(t) if x[0] == "fld" and x[1][0] == "var"}


def fieldterms(pc, extra):
    r = {}
    for a in list(pc) + list(extra):
        for x in vm.walk(a):
            if x[0] == "fld" and x[1][0] == "var" and len(x) == 4:
                r.setdefault(x[3], x)
    return r


def capacity_ok(cap, F, fld):
    """cap >= F ?"""
    if cap == F:
        return True
    if cap[0] == "lin" and len(cap[2]) == 1 and cap[2][0] == (F, 1) and cap[1] >= 0:
        return True
    if cap[0] == "op" and cap[1] == "max":
        return True if any(capacity_ok(x, F, fld) is True for x in cap[2:]) else (None if any(capacity_ok(x, F, fld) is None for x in cap[2:]) else False)
    if cap[0] == "plus":
        ln, e = cap[1], cap[2]
        e2 = strip1(e)
        if e2[0] == "op" and e2[1] in ("saturating_sub", "ssub", "satsub") and e2[2] == F and e2[3] == ln:
            return True
        if e2[0] == "app" and "saturating_sub" in e2[1] and e2[2] == F:
            if e2[3] == ln:
                return True
            return False
        if e2 == F:
            return True
        if e2[0] == "op" and "sub" in str(e2[1]) and e2[2] == F:
            return False if e2[3] != ln else True
        return None
    if cap[0] == "i":
        return ("const", cap[1])
    if F not in list(vm.walk(cap)):
        return False
    return None


def mem_cap(st, root, path, body_types):
    """description of the memory a pointer leads into: ('fixed', N) | ('cap', term) | ('grows',) | None"""
    v = st.mem.get(root)
    ty = body_types(root)
    if ty:
        import re
        m = re.match(r"^\[.*; (\d+)(_usize)?\]$", ty)
        if m:
            return ("fixed", int(m.group(1)))
    if v is None:
        return None
    if v[0] == "rep":
        return ("cap", v[2])
    if v[0] == "arr":
        return ("fixed", len(v[1])) if v[1] else ("grows",)
    if v[0] == "seq":
        b = v[1]
        if b[0] == "cap":
            return ("cap", b[1])
        if b[0] == "capmin":
            return ("cap", b[2])
        return ("cap", v[2])
    return None


def need_ok(rep, key, site, kind, desc, pc, fields, N):
    """-> set of fields f such that the memory described is at least f cells"""
    good, unk = set(), set()
    for f, F in fields.items():
        if desc[0] == "fixed":
            r = excl(pc, F, desc[1])
        else:
            r = capacity_ok(desc[1], F, f)
            if isinstance(r, tuple):
                r = excl(pc, F, r[1])
        if r is True:
            good.add(f)
        elif r is None:
            unk.add(f)
    return good, unk


def excl(pc, F, N):
    """does pc exclude F > N?"""
    hit = False
    for a in pc:
        if F in list(vm.walk(a)):
            hit = True
    if not hit:
        return False
    for x in (N + 1, N + 2, N + 7, 10 * N + 3):
        if holds(pc, {F: x}) is not False:
            return False
    return True


def executor(prog, rep, A, e, size, slots):
    """all sites from which executor e is entered"""
    sites = []          # (site name, state, stack desc, cache desc, pc)
    selfty = None
    def types_of(b, base=None):
        def f(root):
            if root[0] == "L" and root[1] == 1:
                return b.locals[root[2]]
            return None
        return f
    log = []
    callers = [c for c in agree.callers(prog, e.name) if "::tests::" not in c.name]
    argpos = lambda root: int(root[1][3:]) - 1 if root[0] == "H" and root[1].startswith("arg") else None
    local = {"S": None, "C": None}
    for k in ("S", "C"):
        root = getattr(e, k)
        if root is not None and root[0] == "L":
            local[k] = types_of(e.body)(root)
    def note(site, pc, S, C, st):
        rep.call_sites = getattr(rep, "call_sites", 0) + 1
        sites.append((site, pc, S, C))
    own = e.entry.pc if e.kind == "loop" else {}
    todo = []
    if not callers:
        todo.append((e.name, own, None, None, e.entry))
    for c in callers:
        rec = []

        def m(I_, st, args, r, d, tys, rec=rec):
            rec.append((args, st.copy()))
            return UNIT      # contents do not matter here; capacities survive the call
        def skip(I_, st, args, r, d, tys):
            return UNIT
        it = Interp(prog, opaque=execs.numeric_leaf(prog), models={**cap_models(log), **{n: skip for n in NAMES}, e.name: m},
                    max_outs=20000, max_steps=3000000)
        it.opaque_loops = True
        st = State()
        try:
            it.run(st, c, execs.mkargs(st, c))
        except Give as g:
            rep.undec(f"{c.name} -> {e.name}", str(g))
            continue
        rep.functions.add(c.name)
        rep.floor(f"calls of {short(e.name)} in {short(c.name)}", len(rec), 1)
        for args, s in rec:
            todo.append((c.name, s.pc, args, c, s))
    fields = {}
    seen = {}
    for site, pc, args, c, s in todo:
        for kind, root in (("S", e.S), ("C", e.C)):
            if root is None:
                continue
            if local[kind] is not None:
                desc = mem_cap(e.entry, root, (), types_of(e.body))
                allpc = {**pc, **own}
                if desc is not None and desc[0] == "cap" and desc[1][0] != "fld":
                    desc = None
            else:
                if args is None:
                    continue          # the caller's buffers: public entry with checked or growing access
                p = args[argpos(root)]
                while p[0] == "ptr":
                    v = s.mem.get(p[1])
                    t = None
                    if v is not None and not p[2] and v[0] == "ptr":
                        p = v
                        continue
                    break
                desc = mem_cap(s, p[1], p[2], types_of(c)) if p[0] == "ptr" else None
                allpc = pc
            sig = (site, kind, repr(desc), repr(sorted((a, v) for a, v in allpc.items() if any(x[0] == "fld" for x in vm.walk(a)))) if False else repr(allpc))
            if sig in seen:
                continue
            seen[sig] = 1
            if desc is None:
                rep.undec(f"{short(site)}:{kind}", "memory not traced")
                continue
            if desc[0] == "grows" or "Vec<" in e.body.locals[argpos(root) + 1] if argpos(root) is not None and root[0] == "H" and kind == "S" else desc[0] == "grows":
                rep.ok(f"{short(site)} -> {short(e.name)}: operand stack is a growing vector")
                continue
            fs = fieldterms(allpc, [desc])
            good, unk = need_ok(rep, "", site, kind, desc, allpc, fs, None)
            what = f"a fixed array of {desc[1]} cells" if desc[0] == "fixed" else "a vector"
            if kind == "S":
                ok = bool(good & size)
                if not ok and (unk & size or not size):
                    rep.undec(f"{short(site)}:{kind}", "size condition not understood")
                    continue
                rep.check(ok, f"{short(e.name)}:stack", site,
                          f"the operand stack of {short(e.name)} is {what} without a condition that the recorded depth fits", f"{short(site)} -> {short(e.name)}: stack fits")
            else:
                good = good - size
                unk = unk - size
                if not good and unk:
                    rep.undec(f"{short(site)}:{kind}", "size condition not understood")
                    continue
                ok = bool(good) and (slots is None or bool(good & slots))
                rep.check(ok, f"{short(e.name)}:cache", site,
                          f"the cache of {short(e.name)} is {what} without a condition that the recorded number of slots fits", f"{short(site)} -> {short(e.name)}: cache fits")
                if ok:
                    slots = good if slots is None else slots & good
    done = set()
    for v, nn, pc in log:
        k = (repr(v)[:200], repr(nn)[:200])
        if k in done:
            continue
        done.add(k)
        desc = ("cap", v[1][1]) if v[0] == "seq" and v[1][0] == "cap" else None
        if desc is None:
            rep.undec(f"{short(e.name)}:set_len", "capacity unknown")
            continue
        r = desc[1] == nn or capacity_ok(desc[1], nn, "")
        if r is None or isinstance(r, tuple):
            rep.undec(f"{short(e.name)}:set_len", "capacity not comparable")
        else:
            rep.check(r is True, f"set_len", e.name, "set_len exceeds the capacity requested for the vector", "set_len within capacity")
    return slots
