"""P02: batch evaluation evaluates every point exactly with its own inputs, writes it at its own index, after validation."""
from sx import *
import sx, vm, execs, agree, ints
from ints import Loop, ev, holds, Unknown
from mir import callee
from p01 import short

RULE = ("The batch driver's MIR is interpreted abstractly with the per-instruction executors intercepted. Obligations: (a) every value "
        "stored into the output at index i is the top of the operand stack (the proper lane) after running all instructions, from height "
        "0, with row argument r and lane k such that r + k = i; (b) for every number of points n in 0..40 (the index sets are "
        "quasi-affine with the lane width as period) the loops reached on each accepting path write exactly the indices 0..n-1; (c) no "
        "accepting path is compatible with a wrong column count, a too short output, and every accepting path has compared the column "
        "lengths; (d) the parallel driver gives each chunk the column slices with the same bounds as its output chunk and propagates the error.")

OUT = "exec"


def find_driver(prog, ex):
    """functions that call both a SIMD and a scalar per-instruction executor (the batch driver)"""
    fns = [e for e in ex if e.kind == "fn"]
    wide = {e.name for e in fns if e.wide}
    scal = {e.name for e in fns if not e.wide}
    r = []
    for b in prog.fns():
        cs = {callee(t) for _, t in b.calls()}
        if cs & wide or cs & scal:
            if b.name not in wide | scal:
                r.append(b)
    return r, wide, scal


def run(prog, rep):
    A, variants, ex = vm.extract(prog)
    drivers, wide, scal = find_driver(prog, ex)
    rep.floor("batch drivers", len(drivers), 1)
    byname = {e.name: e for e in ex}
    for b in drivers:
        driver(prog, rep, b, byname, wide, scal)
    entry_points(prog, rep, drivers)
    for b in drivers:
        for p in prog.fns():
            for bi, t in p.calls():
                if callee(t) == b.name and "{closure" in p.name and "::tests::" not in p.name:
                    parallel(prog, rep, p, b)


def driver(prog, rep, b, byname, wide, scal):
    rep.functions.add(b.name)
    mapname = {}

    def mk(nm):
        e = byname[nm]

        def m(I_, st, args, r, d, tys):
            vals = [I_.deep(st, a) for a in args]
            if any(v[0] == "arr" and not v[1] for v in vals):
                pass
            for i, a in enumerate(args):
                I_.havoc_mut(st, a, ("app", f"exec{i + 1}:{nm}") + tuple(vals))
            return UNIT
        return m
    names = [n for n in wide | scal]
    it = Interp(prog, opaque=execs.numeric_leaf(prog), models={n: mk(n) for n in names}, max_outs=20000, max_steps=3000000)
    loops = []

    def hook(I_, body, header, entry, backs, exits, tag):
        loops.append(Loop(I_, body, header, entry, backs, exits, tag))
    it.loop_hooks.append(hook)
    st = State()
    args = execs.mkargs(st, b)
    outs = it.run(st, b, args)
    rep.functions |= {n for n in it.called}
    # roles of the driver's parameters by type
    tys = {i: b.locals[i] for i in range(1, b.nargs + 1)}
    cols = [i for i, t in tys.items() if "[&" in t and "f64" in t and not t.startswith("&mut")]
    outp = [i for i, t in tys.items() if t.startswith("&mut") and t.endswith("[f64]")]
    if len(cols) != 1 or len(outp) != 1:
        rep.undec(b.name, "parameter roles")
        return
    COL, OUTR = ("var", f"arg{cols[0]}"), ("H", f"arg{outp[0]}")
    OUTV = ("var", f"arg{outp[0]}")
    # (a) stores
    stores = 0
    wl = {}
    for L in loops:
        for o in L.backs:
            nv, evv = o.st.mem.get(OUTR), L.entry.mem.get(OUTR)
            if nv is None or nv == evv or nv[0] != "seq":
                continue
            base = evv
            for wi, wv in nv[3]:
                if evv and evv[0] == "seq" and (wi, wv) in evv[3]:
                    continue
                wl.setdefault(L.tag, []).append((o, wi, wv))
                stores += 1
                check_store(rep, b, byname, wi, it.deep(o.st, wv), wide)
    rep.floor("stores into the output", stores, 2)
    # (b) coverage
    n = ("len", ("idx", COL, I(0)))
    params = ("len", COL)
    oks = [o for o in outs if o.kind == "ret" and is_ok(o.val)]
    rep.floor("accepting paths", len(oks), 1)
    cov_ok = 0
    for o in oks:
        for N in list(range(0, 41)) + [64, 255, 256, 257]:
            for extra in (0, 3):
                pts = N
                env = {n: N, params: 2, ("len", OUTV): N + extra}
                if holds(o.st.pc, env) is False:
                    env = {n: N, params: 0, ("len", OUTV): N + extra}
                    if holds(o.st.pc, env) is False or N != 1:
                        continue
                    pts = 1
                if fuzzy(o.st.pc, env, (n, ("len", OUTV))):
                    rep.undec(f"coverage:{N}", "a condition over the number of points could not be evaluated")
                    break
                try:
                    got = set()
                    dup = False
                    for L in loops:
                        if L.tag not in wl:
                            continue
                        if not onpath(L, o, env):
                            continue
                        for e, poss in L.simulate(env):
                            sets = []
                            for q in poss:
                                nv = q.st.mem.get(OUTR)
                                ents = [wi for (qq, wi, wv) in wl[L.tag] if qq is q]
                                sets.append(frozenset(ev(wi, e) for wi in ents))
                            if len(set(sets)) > 1:
                                raise Unknown("path dependent stores")
                            got |= sets[0]
                    want = set(range(pts))
                    if got != want:
                        miss, extra_ = sorted(want - got)[:5], sorted(got - want)[:5]
                        rep.violate(f"coverage:{short(b.name)}", b.name,
                                    f"for {pts} points the accepting path writes a wrong set of output indices: missing {miss}, extra {extra_}")
                        return
                    cov_ok += 1
                except Unknown as u:
                    rep.undec(f"coverage:{N}", str(u)[:200])
                    break
    if cov_ok:
        rep.ok(f"index sets = 0..n-1 on {cov_ok} (path, n) combinations")
    validation(rep, b, oks, COL, OUTV, it)


def validation(rep, b, oks, COL, OUTV, it):
    """(c) what an accepting path has established about its inputs"""
    n = ("len", ("idx", COL, I(0)))
    params = ("len", COL)
    for o in oks:
        pcs = {a for a in o.st.pc}
        env = {params: 3}
        pn = [a for at in pcs for a in vm.walk(at) if a[0] == "len" and len(a) == 2 and "param_names" in repr(a)]
        if pn:
            env[pn[0]] = 2
            rep.check(holds(o.st.pc, env) is False, f"validate-count:{short(b.name)}", b.name,
                      "an accepting path is compatible with 3 columns for 2 parameters", "column count validated")
        elif OUTV:      # other drivers hand every chunk to the batch driver, which counts the columns
            rep.violate(f"validate-count:{short(b.name)}", b.name, "an accepting path never compares the number of columns with the number of parameters")
        bad = False
        for N in (1, 4, 5, 9) if OUTV else ():
            env = {n: N, params: 2, ("len", OUTV): N - 1}
            if holds(o.st.pc, env) is not False:
                env = {n: N, params: 2, ("len", OUTV): N}
                if holds(o.st.pc, env) is not False:
                    bad = True
        if OUTV:
            rep.check(not bad, f"validate-output:{short(b.name)}", b.name, "an accepting path is compatible with an output shorter than the number of points",
                      "output length validated")
        if holds(o.st.pc, {params: 0}) is not False:
            continue
        v = lengths_validated(o, COL, n, it)
        if v is None:
            rep.undec(f"validate-lengths:{short(b.name)}", "the comparison of the column lengths is not in a form this rule follows")
        else:
            rep.check(v, f"validate-lengths:{short(b.name)}", b.name,
                      "an accepting path is compatible with columns of different lengths", "column lengths validated")


def entry_points(prog, rep, drivers):
    """public drivers built on the batch driver (in any way): they validate before they split the columns"""
    names = {b.name for b in drivers}
    for p in prog.fns():
        if p.name in names or "{closure" in p.name or "::tests::" in p.name or p.nargs < 2:
            continue
        inner = {callee(t) for q in prog.fns() if q.name == p.name or q.name.startswith(p.name + "::{closure") for _, t in q.calls()}
        if not inner & names:
            continue
        tys = {i: p.locals[i] for i in range(1, p.nargs + 1)}
        cols = [i for i, t in tys.items() if "[&" in t and "f64" in t and not t.startswith("&mut")]
        if len(cols) != 1 or "Result" not in p.locals[0]:
            continue
        if not any("[&" in str(t) for t in tys.values()):
            continue
        it = Interp(prog, opaque=execs.numeric_leaf(prog), models={nm: (lambda I_, st, args, r, d, tys: ("app", "batch") + tuple(I_.deep(st, a) for a in args)) for nm in names},
                    max_outs=4000)
        st = State()
        args = execs.mkargs(st, p)
        try:
            outs = it.run(st, p, args)
        except Give as g:
            rep.undec(p.name, str(g))
            continue
        rep.functions.add(p.name)
        COL = ("var", f"arg{cols[0]}")
        delegated = [o for o in outs if o.kind == "ret" and is_ok(o.val) and any(a[0] == "is" and a[1][:2] == ("app", "batch") and mentions(a[1], COL, it)
                     and not any(x[0] == "op" and x[1] == "subslice" for x in vm.walk(a[1])) for a in o.st.pc)]
        oks = [o for o in outs if o.kind == "ret" and is_ok(o.val) and o not in delegated]
        validation(rep, p, oks, COL, None, it)


def lengths_validated(o, COL, n, it):
    """True: the path implies that every column has n rows; False: it does not; None: cannot tell"""
    unclear = False
    for a, val in o.st.pc.items():
        kind, h = None, None
        if a[0] == "hof" and a[1] in ("any", "all"):
            h = a
            kind = "all" if a[1] == "all" and val is True else "none" if a[1] == "any" and val is False else None
        elif a[0] == "is" and a[1][0] == "hof" and a[1][1] in ("find", "position") and val == "None":
            h, kind = a[1], "none"
        if kind is None:
            if any(x[0] in ("loop", "hof") and mentions(x, COL, it) for x in vm.walk(a)) or \
                    any(x[0] == "len" and len(x) == 2 and x[1] != COL and x != n and mentions(x[1], COL, it) for x in vm.walk(a)):
                unclear = True
            continue
        if not mentions(h, COL, it):
            continue
        lam = h[4][0] if h[4] else None
        seq = h[2]
        if not (lam and lam[0] == "lam"):
            unclear = True
            continue
        if seq[0] == "skip" and seq[1] == COL and seq[-1][0] == "i":
            if seq[-1][1] >= 2:
                continue
        elif seq != COL:
            unclear = True
            continue
        body = lam[3]
        lens = {x for x in vm.walk(body) if x[0] == "len" and len(x) == 2 and any(y[0] == "bv" for y in vm.walk(x))}
        ref = {x for x in vm.walk(body) if x[0] == "len" and len(x) == 2} - lens
        if len(lens) != 1 or len(ref) > 1:
            unclear = True
            continue
        ok = True
        for N in (0, 1, 2, 5, 8):
            for Lc in range(0, 11):
                try:
                    r = ints.ev_lam(lam, {n: N, **{r: N for r in ref}, list(lens)[0]: Lc})
                except Unknown:
                    ok = None
                    break
                if bool(r) == (kind == "all") and Lc != N:
                    ok = False
            if ok is None:
                break
        if ok:
            return True
        if ok is None:
            unclear = True
    return None if unclear else False


def fuzzy(pc, env, sizes):
    """a condition (other than a quantified comparison) over the sizes that cannot be evaluated"""
    for a in pc:
        try:
            ev(a, env)
        except Unknown:
            if a[0] != "hof" and not (a[0] == "is" and a[1][0] == "hof") and any(y in sizes for y in vm.walk(a)):
                return True
    return False


def mentions(t, x, it):
    return any(y == x for y in vm.walk(t)) or t == x


def is_ok(v):
    return v is not None and v[0] == "adt" and v[2] == "Ok"


def onpath(L, o, env):
    """the loop's entry conditions are compatible with the accepting path"""
    for a, v in L.st0.pc.items():
        if a in o.st.pc and o.st.pc[a] != v:
            if isinstance(v, tuple) and v[0] == "not" and o.st.pc[a] not in v[1]:
                continue
            if isinstance(o.st.pc[a], tuple) and o.st.pc[a][0] == "not" and v not in o.st.pc[a][1]:
                continue
            return False
    return holds(L.st0.pc, env) is not False


def check_store(rep, b, byname, wi, v, wide):
    """v must be the top of stack after executing with row r (and lane k): r + k == wi"""
    key = f"store:{short(b.name)}"
    if v == ("f", "nan"):
        rep.ok()
        return
    lane = None
    x = v
    if x[0] == "lane":
        lane = x[2]
        x = x[1]
    elif x[0] == "idx" and x[2][0] == "i" and x[1][0] not in ("loop",):
        lane = x[2][1]
        x = x[1]
    apps = [y for y in vm.walk(x) if y[0] == "app" and str(y[1]).startswith("exec")]
    if not apps:
        if x[0] in ("loop", "idx", "op", "f", "lane"):
            rep.violate(key + ":source", b.name, f"the value stored at output index {show(wi)} is not a result of executing the instructions: {str(v)[:300]}")
        else:
            rep.undec(key, str(v)[:200])
        return
    rows = set()
    for y in apps:
        nm = y[1].split(":", 1)[1]
        e = byname[nm]
        ri = [i for i in range(1, e.body.nargs + 1) if e.body.locals[i] == "usize"]
        if len(ri) == 1:
            rows.add((nm, y[2 + ri[0] - 1]))
    rs = {r for _, r in rows}
    nms = {n for n, _ in rows}
    if len(rs) != 1:
        rep.undec(key, f"{len(rs)} row arguments")
        return
    r = rs.pop()
    w = bool(nms & wide)
    k = lane if w else 0
    if w and lane is None:
        rep.undec(key, "lane")
        return
    d = iconst_diff(wi, r)
    if d is None or d != k:
        rep.violate(key + ":row", b.name, f"output index {show(wi)} receives lane {k} of the evaluation at row {show(r)}")
        return
    rep.ok(f"output[{show(wi)}] = lane {k} of the evaluation at row {show(r)}")
    # height: the index of the value read must be (stack height - 1)
    if x[0] == "idx":
        h = x[2]
        c, dd = lin_parts(h)
        ok_ = c == -1 and len(dd) == 1 and list(dd.values()) == [1]
        if ok_:
            src = list(dd)[0]
            hs = [y for y in vm.walk(src) if y[0] == "app" and str(y[1]).startswith("exec")]
            e = byname[list(nms)[0]]
            pos = e.Hloc[1][1] if isinstance(e.Hloc[1], tuple) else None
            heads = {y[1].split(":")[0] for y in hs[:1]}
            ok_ = not hs or f"exec{str(pos)[3:]}" in {y[1].split(":")[0] for y in hs}
        rep.check(ok_, key + ":top", b.name, f"the stored value is not the top of the operand stack: index {show(h)[:200]}", "top of stack")


def show(t):
    s = repr(t)
    return s if len(s) < 160 else s[:160] + "…"


def parallel(prog, rep, clo, drv):
    """closure that evaluates one chunk with the sequential driver"""
    rep.functions.add(clo.name)
    rec = []

    def m(I_, st, args, r, d, tys):
        rec.append(([I_.deep(st, a) for a in args], args))
        return ("app", "batch") + tuple(I_.deep(st, a) for a in args)
    it = Interp(prog, models={drv.name: m}, max_outs=2000)
    st = State()
    from execs import mkargs
    args = mkargs(st, clo)
    try:
        outs = it.run(st, clo, args)
    except Give as g:
        rep.undec(clo.name, str(g))
        return
    if not rec:
        rep.undec(clo.name, "no call recorded")
        return
    for vals, raw in rec:
        cols, out = vals[1], vals[2]
        sl = [y for y in vm.walk(cols) if y[0] == "op" and y[1] == "subslice"]
        if len(sl) != 1:
            rep.undec(clo.name, f"column slices: {show(cols)}")
            continue
        lo, hi = sl[0][3], sl[0][4]
        d = iadd(hi, lo, -1)
        rep.check(d == ("len", out), f"chunk-length:{short(drv.name)}", clo.name,
                  f"a chunk of the output is evaluated on column slices of a different length: {show(d)} vs {show(('len', out))}",
                  "column slice length = output chunk length")
        # lo = chunk index * chunk size used by the splitting call in the parent
        parent = clo.name.rsplit("::{closure", 1)[0]
        pb = prog.get(parent)
        while pb is None and "::{closure" in parent:
            parent = parent.rsplit("::{closure", 1)[0]
            pb = prog.get(parent)
        c, dd = lin_parts(lo)
        size = chunk_size(prog, pb) if pb else None
        coef = None
        if c == 0 and len(dd) == 1:
            coef = list(dd.values())[0]
        if size is None or coef is None:
            rep.undec(clo.name, f"chunk start {show(lo)} size {size}")
            continue
        rep.check(size == I(coef), f"chunk-start:{short(drv.name)}", clo.name,
                  f"chunk i is evaluated on the rows starting at {coef}*i but the output is split into chunks of {show(size)}",
                  f"chunk start = chunk index * {coef} = chunk size")
    for o in outs:
        if o.kind == "ret":
            bad = o.val[0] == "adt" and o.val[2] == "Ok" and not any(a[0] == "is" and "batch" in repr(a[1])[:40] for a in o.st.pc)
            rep.check(not bad, f"chunk-error:{short(drv.name)}", clo.name, "the error of a chunk is dropped", "error of a chunk propagated")


def chunk_size(prog, pb):
    for bi, t in pb.calls():
        c = callee(t) or ""
        if c.split("::")[-1] in ("par_chunks_mut", "par_chunks", "chunks_mut", "par_chunks_exact_mut"):
            a = t[2][1]
            it = Interp(prog)
            st = State()
            if a[0] == "k":
                try:
                    return it.const(a[1])
                except Exception:
                    return None
    return None
