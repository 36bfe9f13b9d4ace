"""P03: the bytecode optimisation passes preserve the meaning of the program."""
from sx import *
import sx, vm, execs, agree, alg, machine
from ints import Unknown
from alg import Norm
from mir import callee
from p01 import short, inrange

RULE = ("Every window-rewriting pass over the bytecode (a loop with a cursor into the instruction array and a result vector) is "
        "interpreted abstractly; each path through its body consumes m instructions under variant/constant conditions and emits a "
        "sequence. The effects of the consumed and of the emitted sequence are composed from the executor's extracted instruction "
        "semantics and must agree on the net stack effect, every surviving stack cell and every cache slot (real-algebra normal form on "
        "the domain where the original is defined). Passes that renumber constants or slots must renumber every instruction that "
        "addresses that array, by the same mapping that moves the data; removal passes may only remove instructions without effect.")


def passes(prog, A):
    """functions over the whole bytecode: `&mut Vec<I>`, `&mut [I]` or `&[I]`/`Vec<I>` -> Vec<I>"""
    r = []
    for b in prog.fns():
        if "::tests::" in b.name or "{closure" in b.name or not b.nargs:
            continue
        args = b.locals[1:1 + b.nargs]
        ret = b.locals[0]
        def isvec(t):
            return "Vec<" + A in t or "[" + A + "]" in t
        if any(isvec(t) and t.startswith("&mut") for t in args) or (any(isvec(t) for t in args) and isvec(ret)):
            r.append(b)
    return r


def run(prog, rep):
    A, variants, ex = vm.extract(prog)
    us, _ = agree.unify(prog, ex)
    ref = [u for u in us if not u.wide][0]
    eff = {}
    for v, ps in ref.effects.items():
        qs = []
        for p in ps:
            conds = {inrange(a): x for a, x in p.conds.items()}
            if conds.get("inrange") is False:
                continue
            conds.pop("inrange", None)
            q = vm.Path()
            q.conds, q.writes, q.cwrites, q.delta, q.problem = conds, p.writes, p.cwrites, p.delta, p.problem
            qs.append(q)
        eff[v] = qs
    ps = passes(prog, A)
    rep.notes["passes"] = [p.name for p in ps]
    rep.floor("optimisation passes", len(ps), 2)
    ctx = dict(A=A, variants=variants, eff=eff, ref=ref, N=Norm(math_mode=True))
    windows = 0
    for b in ps:
        it = Interp(prog, max_outs=200000, max_steps=20000000)
        it.opaque_loops = True
        loops = []
        it.loop_hooks.append(lambda I_, bd, h, entry, backs, exits, tag: loops.append((bd, h, entry, backs, exits, tag)))
        st = State()
        try:
            it.run(st, b, execs.mkargs(st, b))
        except Give as g:
            rep.undec(b.name, f"not followed: {g}")
            continue
        rep.functions |= set(it.called) | {b.name}
        seen = {}
        for bd, h, entry, backs, exits, tag in loops:
            if bd.name != b.name and bd.name in {p.name for p in ps}:
                continue
            seen[(bd.name, h)] = (bd, h, entry, backs, exits, tag)   # last interpretation of each loop
        for k, L in seen.items():
            if window_loop(prog, rep, it, b, L, ctx):
                windows += 1
        renumber(prog, rep, it, b, seen, loops, ctx)
        removal(prog, rep, b, seen, ctx)
    rep.floor("window-rewriting loops", windows, 1)
    rep.notes["rewrite cases compared"] = ctx.get("cases", 0)


def instr_reads(t, A):
    return t


def window_loop(prog, rep, it, b, L, ctx):
    bd, h, entry, backs, exits, tag = L
    A, variants, eff, N = ctx["A"], ctx["variants"], ctx["eff"], ctx["N"]
    # cursor: integer phi; result: sequence with phi base receiving instructions
    cursors, results = set(), set()
    for o in backs:
        for r, v in o.st.mem.items():
            ev = entry.mem.get(r)
            if ev is None or v == ev:
                continue
            if ev[0] == "phi" and v[0] == "lin":
                c, d = lin_parts(v)
                if d == {ev: 1} and c > 0:
                    cursors.add((r, ev))
            ev = asseq(ev)
            if v[0] == "seq" and v[1] == ev[1] and any(isinstr(w, A, o, it) for _, w in v[3]):
                results.add(r)
    if not cursors or not results:
        return False
    # the cursor indexes the instruction array: atoms ('is', ('idx', X, cursor + k))
    best = None
    for r, ph in cursors:
        n = 0
        for o in backs:
            for a in o.st.pc:
                if a[0] == "is" and a[1][0] == "idx":
                    c, d = lin_parts(a[1][2])
                    if d == {ph: 1}:
                        n += 1
        if best is None or n > best[0]:
            best = (n, r, ph)
    if best[0] == 0 or len(results) != 1:
        return False
    _, cr, ph = best
    R = results.pop()
    for o in backs:
        one_path(rep, it, b, entry, o, cr, ph, R, ctx)
    return True


def asseq(v):
    return v if v[0] == "seq" else ("seq", v, ("len", v), ())


def isinstr(w, A, o, it):
    return w[0] == "adt" and w[1] == A or w[0] == "idx"


def one_path(rep, it, b, entry, o, cr, ph, R, ctx):
    A, variants, eff, N = ctx["A"], ctx["variants"], ctx["eff"], ctx["N"]
    nv = o.st.mem.get(cr)
    m, d = lin_parts(nv)
    if d != {ph: 1} or m <= 0:
        rep.undec(b.name, f"cursor advance {nv}")
        return
    # input array
    X = None
    var = {}
    for a, v in o.st.pc.items():
        if a[0] == "is" and a[1][0] == "idx":
            c, dd = lin_parts(a[1][2])
            if dd == {ph: 1}:
                X = a[1][1]
                var[c] = v
    ev, rv = asseq(entry.mem[R]), asseq(o.st.mem[R])
    emitted = {}
    if rv[1:] != ev[1:]:
        if rv[0] != "seq" or rv[1] != ev[1]:
            rep.undec(b.name, "result vector rebuilt")
            return
        for wi, wv in rv[3]:
            k = iconst_diff(wi, ev[2])
            if k is None:
                rep.undec(b.name, "result index")
                return
            emitted[k] = it.deep(o.st, wv)
    n_out = iconst_diff(rv[2], ev[2]) if rv[0] == "seq" else None
    if n_out is None or sorted(emitted) != list(range(n_out)):
        rep.undec(b.name, f"emitted count {n_out}")
        return
    emitted = [emitted[k] for k in range(n_out)]
    if X is None:
        for w in emitted:
            if w[0] == "idx":
                X = w[1]
    inp = lambda k: ("idx", X, iadd(ph, I(k)))
    if emitted == [inp(k) for k in range(m)]:
        rep.ok()
        return
    # constants array: writes to other roots; kc rewriting
    newc = {}
    carrs = set()
    for r, v in o.st.mem.items():
        e0 = entry.mem.get(r)
        if r != R and v != e0 and v[0] == "seq" and e0 is not None:
            base_len = e0[2] if e0[0] == "seq" else ("len", e0)
            ebase = e0[1] if e0[0] == "seq" else e0
            for wi, wv in v[3]:
                if iconst_diff(wi, base_len) is not None:
                    newc[wi] = it.deep(o.st, wv)
            carrs.add(ebase)
            carrs.add(e0)

    def choices(k):
        v = var.get(k)
        if isinstance(v, str):
            return [v]
        if isinstance(v, tuple) and v[0] == "not":
            return [x for x in variants if x not in v[1]]
        return list(variants)
    # strip the common prefix and suffix of copied instructions: they meet the same state on both sides
    lo, hi, ehi = 0, m, len(emitted)
    while lo < hi and lo < ehi and emitted[lo] == inp(lo):
        lo += 1
    while hi > lo and ehi > lo and emitted[ehi - 1] == inp(hi - 1):
        hi, ehi = hi - 1, ehi - 1
    core = emitted[lo:ehi]
    used = sorted(set(range(lo, hi)) | {k for w in core for k in uses(w, X, ph)})
    relevant = {inp(k) for k in used}
    consts = {}
    for a, v in o.st.pc.items():
        if a[0] != "is" and any(y in relevant for y in vm.walk(a)):
            consts[kc(a, carrs, it)] = v
    memo = ctx.setdefault("memo", {})
    sig = (b.name, tuple((k - lo, tuple(choices(k))) for k in used), repr(core), repr(sorted(consts.items(), key=repr)), repr(newc), ph, lo, hi)
    if sig in memo:
        rep.ok()
        return
    memo[sig] = True
    combos = [{}]
    for k in used:
        cs = choices(k)
        combos = [dict(c, **{str(k): v}) for c in combos for v in cs]
        if len(combos) > 4000:
            rep.undec(b.name, "too many unconstrained instructions in a rewriting window")
            return
    renorm = it.renorm

    def payload_of(k, v):
        return {f: ("fld", inp(k), v, f) for f in "0123"}

    vals = fixed_consts(N, consts)
    ids = same_payload(o.st.pc)
    for c in combos:
        before = [(c[str(k)], payload_of(k, c[str(k)])) for k in range(lo, hi)]
        after = []
        bad = None
        for w in core:
            if w[0] == "adt" and w[1] == A:
                after.append((w[2], dict(zip(w[3], w[4]))))
            elif w[0] == "idx" and w[1] == X:
                kk, dd = lin_parts(w[2])
                if dd != {ph: 1}:
                    bad = "emitted instruction from elsewhere"
                    break
                after.append((c[str(kk)], payload_of(kk, c[str(kk)])))
            else:
                bad = f"emitted value {str(w)[:120]}"
                break
        key = f"{'+'.join(v for v, _ in before)}->{'+'.join(v for v, _ in after)}"
        if bad:
            rep.undec(key, bad)
            return
        try:
            S1 = machine.run_seq(eff, before, renorm)
            S2 = machine.run_seq(eff, after, renorm)
        except (Unknown, KeyError) as u:
            rep.undec(key, str(u)[:150])
            continue
        worst, text, n = True, "", 0
        for s1 in S1:
            for s2 in S2:
                t1, t2 = fix_state(s1, vals, newc, carrs, ids, it), fix_state(s2, vals, newc, carrs, ids, it)
                if alg.conflict(t1.conds, t2.conds):
                    continue
                n += 1
                r, tx = machine.equal(N, t1, t2)
                if r is False:
                    worst, text = False, tx
                    break
                if r is None and worst is True:
                    worst = None
            if worst is False:
                break
        ctx["cases"] = ctx.get("cases", 0) + 1
        if worst is False:
            rep.violate(key, b.name, f"rewriting [{', '.join(v for v, _ in before)}] to [{', '.join(v for v, _ in after)}] changes the meaning: {text}"
                        + (f"   (under {condtext(N, consts)})" if consts else ""))
        elif worst is None or n == 0:
            rep.undec(key, "not decided")
        else:
            rep.ok(f"[{', '.join(v for v, _ in before)}] = [{', '.join(v for v, _ in after)}]")


def condtext(N, consts):
    return "; ".join(f"{'' if v is True else 'not '}{N.show(a)}" for a, v in consts.items() if a[0] == "op" and "kc" in repr(a))[:300]


def uses(w, X, ph):
    out = set()
    for y in vm.walk(w):
        if y[0] == "idx" and y[1] == X:
            c, d = lin_parts(y[2])
            if d == {ph: 1}:
                out.add(c)
    return out


def kc(t, carrs, it):
    """float-array reads -> ('kc', index)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "idx" and len(t) == 3 and t[2][0] == "fld":
        return ("kc", t[2])
    return tuple(kc(y, carrs, it) for y in t)


def same_payload(pc):
    """payload equalities decided by the path"""
    r = {}
    for a, v in pc.items():
        if a[0] == "op" and a[1] == "eq" and v is True and a[2][0] == "fld" and a[3][0] == "fld":
            x, y = sorted((a[2], a[3]), key=repr)
            r[y] = x
    return r


def fixed_consts(N, consts):
    """values of constants decided by the path: {('kc', i): float term}"""
    r = {}
    for a, v in consts.items():
        if v is not True or a[0] != "op":
            continue
        if a[1] == "eq":
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x[0] == "kc" and y[0] == "f":
                    r[x] = y
        if a[1] == "lt" and a[3][0] == "f" and 0 < float(a[3][1]) < 1e-6 and a[2][0] == "op" and a[2][1] == "abs":
            ks = [y for y in vm.walk(a[2]) if y[0] == "kc"]
            if len(set(ks)) == 1:
                for c in ("1.0", "-1.0", "0.0", "2.0", "0.5", "-2.0"):
                    if N.eq(sub1(a[2][2], ks[0], ("f", c)), ("f", "0.0")) is True:
                        r[ks[0]] = ("f", c)
    return r


def sub1(t, x, v):
    if t == x:
        return v
    if not isinstance(t, tuple) or not t:
        return t
    return tuple(sub1(y, x, v) for y in t)


def fix_state(s, vals, newc, carrs, ids, it):
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in ids:
            return ids[t]
        t = tuple(go(y) for y in t)
        if t[0] == "kc" and len(t) == 2:
            if t in vals:
                return vals[t]
            for w, x in newc.items():
                if t[1] == w or stripall(t[1]) == stripall(w):
                    return go(kc(x, carrs, it))
        return t
    r = machine.M(s.h, {o: go(w) for o, w in s.st.items()}, {go(c): go(w) for c, w in s.ca.items()},
                  {go(a): v for a, v in s.conds.items()})
    return r


# ---- passes that renumber constants or cache slots -----------------------------------------------
def carriers(eff, kind):
    """{variant: (payload fields used as index into the constants ('kc') / cache ('ca'), multi-word?)}"""
    r = {}
    for v, ps in eff.items():
        fs, multi = set(), False
        for p in ps:
            for t in list(p.writes.values()) + list(p.cwrites) + list(p.cwrites.values()) + [a for a in p.conds if isinstance(a, tuple)]:
                for y in vm.walk(t):
                    if y[0] == kind and len(y) == 2:
                        idx = strip(y[1])
                        if idx[0] == "arg":
                            fs.add(idx[1])
                        else:
                            g = [z for z in vm.walk(idx) if z[0] == "arg"]
                            if g:
                                fs.add(g[0][1])
                                multi = True
            if kind == "ca":
                fs |= {strip(c)[1] for c in p.cwrites if strip(c)[0] == "arg"}
        if fs:
            r[v] = (fs, multi)
    return r


def strip(t):
    while t[0] == "op" and len(t) == 3 and str(t[1]).startswith("cast"):
        t = t[2]
    return t


def stripall(t):
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(stripall(y) for y in t)
    if t[0] == "op" and len(t) == 3 and str(t[1]).startswith("cast"):
        return t[2]
    return t


def is_ptr_arg(b, r, what):
    return r[0] == "H" and r[1].startswith("arg") and what in b.locals[int(r[1][3:])]


def renumber(prog, rep, it, b, seen, loops, ctx):
    A, eff, variants = ctx["A"], ctx["eff"], ctx["variants"]
    for (fn, h), (bd, hh, entry, backs, exits, tag) in seen.items():
        if fn != b.name:
            continue
        # loops that write a payload field of an element of the instruction array
        W = []
        for o in backs:
            for r, v in o.st.mem.items():
                if not is_ptr_arg(b, r, A) or v[0] != "seq":
                    continue
                for wi, wv in v[3]:
                    if wv[0] == "with" and wv[1][0] == "idx":
                        W.append((o, r, wi, wv))
        if not W:
            continue
        r, wi = W[0][1], W[0][2]
        elem = W[0][3][1]
        written = {}
        for o, r_, wi_, wv in W:
            v = o.st.pc.get(("is", elem))
            for path in [wv[2]]:
                steps = path if isinstance(path, tuple) else ()
                for st_ in steps:
                    if isinstance(st_, tuple) and len(st_) == 2 and st_[0][0] == "f":
                        written.setdefault(v, []).append((o, st_[0][1], it.deep(o.st, st_[1])))
        cc, sc = carriers(eff, "kc"), carriers(eff, "ca")
        for kind, cs in (("constant", cc), ("cache slot", sc)):
            hit = [v for v in written if v in cs]
            if not hit:
                continue
            for v, (fs, multi) in sorted(cs.items()):
                # every path on which the element can be v must write the field, unless it stays unmapped by an explicit lookup miss
                miss = []
                for o in backs:
                    x = o.st.pc.get(("is", elem))
                    can = x == v or x is None or (isinstance(x, tuple) and v not in x[1])
                    if not can:
                        continue
                    if not any(o2 is o and f in fs for o2, f, _ in written.get(x, [])):
                        if x == v and any(v2 is False and a[0] != "has" and (a[0] != "is") for a, v2 in o.st.pc.items() if repr(elem) in repr(a)):
                            continue     # a lookup of this payload failed: nothing to rename
                        if x == v and any(isinstance(v2, str) and v2 == "None" for a, v2 in o.st.pc.items() if repr(elem) in repr(a)):
                            continue
                        miss.append(o)
                rep.check(not miss, f"{short(b.name)}:{kind}:{v}", b.name,
                          f"the pass renumbers {kind} indices of {', '.join(sorted(hit))} but leaves {v} with its old {kind} index",
                          f"{v} is renumbered")
        # values written
        for v, ws in written.items():
            if v not in cc or not isinstance(v, str):
                continue
            fs, multi = cc[v]
            for o, f, val in ws:
                if f not in fs:
                    continue
                const_value(prog, rep, it, b, entry, o, elem, v, f, stripall(val), multi, loops, ctx)
    slot_alloc(rep, b, seen, ctx)


def const_value(prog, rep, it, b, entry, o, elem, v, f, val, multi, loops, ctx):
    pay = ("fld", elem, v, f)
    key = f"{short(b.name)}:value:{v}"
    # arrays of the original constants: reads idx(base, pay)
    def is_old(t, k=None):
        t = stripall(t)
        if t[0] != "idx":
            return False
        c, d = lin_parts(t[2])
        return c == 0 and d == {pay: 1} if k is None else False
    if val[0] == "app" and val[1] == "map_get":
        k = stripall(val[3])
        ok = k[0] == "app" and "to_bits" in k[1] and is_old(k[2])
        rep.check(ok, key, b.name, f"the new index of {v} is looked up under a key that is not the value of its own constant", f"{v}: shared by constant value")
        return
    # fresh index: length of the new array before pushing
    news = [(r, x) for r, x in o.st.mem.items() if x[0] == "seq" and r in entry.mem and x != entry.mem[r] and r[0] == "L"]
    for r, x in news:
        e0 = entry.mem[r]
        ln = e0[2] if e0[0] == "seq" else ("len", e0)
        if stripall(ln) != val:
            continue
        if not multi:
            ws = [wv for wi, wv in x[3] if wi == ln]
            ok = len(ws) == 1 and is_old(it.deep(o.st, ws[0])) and iconst_diff(x[2], ln) == 1
            rep.check(ok, key, b.name, f"the constant moved for {v} is not the one its index named", f"{v}: constant moved")
            tm = [t for r2, t in o.st.mem.items() if t[0] == "app" and t[1] == "map_touch" and entry.mem.get(r2) != t]
            for t in tm:
                k = stripall(t[3])
                rep.check(k[0] == "app" and "to_bits" in k[1] and is_old(k[2]) and stripall(t[4]) == val, key + ":memo", b.name,
                          f"the index remembered for reuse of {v}'s constant is not the new one", f"{v}: remembered")
            return
        # block move: an inner loop appends old[payload + j]
        inner = [L for L in loops if L[0].name == b.name and L[2] is not entry and any(
            a == ("is", elem) and y == v for o2 in L[3] for a, y in o2.st.pc.items())]
        for bd, h, en2, backs, exits, tag in inner[-1:]:
            oks = []
            for o2 in backs:
                x2 = o2.st.mem.get(r)
                e2 = en2.mem.get(r)
                if x2 is None or x2[0] != "seq" or e2 is None:
                    continue
                its = [(y[1], y[2]) for y in en2.mem.values() if y[0] == "iter" and y[1][0] == "range"]
                for wi2, wv2 in x2[3]:
                    cand = []
                    for rg, pos in its:
                        c, d = lin_parts(stripall(it.deep(o2.st, wv2))[2]) if stripall(wv2)[0] == "idx" else (None, {})
                        lo = rg[1]
                        want = dict(lin_parts(iadd(iadd(pay, pos), lo))[1])
                        n = iadd(rg[2], imul(I(-1), lo))
                        cn, dn = lin_parts(stripall(n))
                        size_ok = cn == 2 and len(dn) == 1 and list(dn.values()) == [1] and [z for z in dn if z[0] == "op" and z[1] == "f2i" and is_old(z[2])] != []
                        cand.append((d == want and c == lin_parts(lo)[0], size_ok))
                    oks.append(max(cand, default=(False, False)))
            if oks:
                rep.check(all(a for a, _ in oks), key, b.name, f"the block moved for {v} does not start at its own constants", f"{v}: block moved")
                rep.check(all(z for _, z in oks), key + ":size", b.name, f"the block moved for {v} does not have degree + 2 entries", f"{v}: block size")
            else:
                rep.undec(key, "block move not recognised")
        return
    rep.undec(key, f"new index {str(val)[:100]}")


def slot_alloc(rep, b, seen, ctx):
    """interval allocation: a slot taken over from an earlier value must be dead, and its new last use recorded"""
    for (fn, h), (bd, hh, entry, backs, exits, tag) in seen.items():
        if fn != b.name:
            continue
        for o in backs + exits:
            ins = [e for e in o.st.ev if isinstance(e, tuple)]
    return


def removal(prog, rep, b, seen, ctx):
    """`retain` over the instruction array: what it drops must have no effect"""
    A, eff = ctx["A"], ctx["eff"]
    sc = carriers(eff, "ca")
    readers = {v for v in sc if any(any(y[0] == "ca" for t in list(p.writes.values()) + list(p.cwrites.values()) for y in vm.walk(t)) for p in eff[v])}
    calls = [callee(x["t"]) for x in b.blocks if x["t"] and x["t"][0] == "call"]
    if not any(c and c.endswith("Vec::retain") for c in calls):
        return
    clos = [f for f in prog.fns() if f.name.startswith(b.name + "::{closure") and f.nargs == 2 and A in f.locals[2] and f.locals[0] == "bool"]
    for f in clos:
        it = Interp(prog)
        st = State()
        e = ("var", "instr")
        st.mem[("H", "instr")] = e
        try:
            env = ("clo", f.name, tuple(("var", f"cap{i}") for i in range(4)))
            st.mem[("H", "env")] = env
            outs = it.run(st, f, [("ptr", ("H", "env"), (), True), ("ptr", ("H", "instr"), (), True)])
        except Give as g:
            rep.undec(f.name, str(g))
            continue
        for o in outs:
            if o.kind != "ret":
                continue
            v = o.st.pc.get(("is", e))
            drop = o.val == ("b", False)
            cond = o.val if not drop and o.val != ("b", True) else None
            if not drop and cond is None:
                continue
            cands = [v] if isinstance(v, str) else [x for x in ctx["variants"] if not (isinstance(v, tuple) and x in v[1])]
            for x in cands:
                noeff = all(p.delta == 0 and not p.writes for p in eff.get(x, []))
                stores = any(p.cwrites for p in eff.get(x, []))
                rep.check(noeff, f"{short(b.name)}:drops:{x}", f.name, f"the removal pass drops {x}, which changes the operand stack", f"{x} may be dropped")
                if noeff and stores:
                    pay = ("fld", e, x, "0")
                    # dropped only when the slot is absent from the collected set
                    atoms = [(a, y) for a, y in o.st.pc.items() if pay in list(vm.walk(a))]
                    if cond is not None:
                        pos = pay in list(vm.walk(cond)) and not (cond[0] == "op" and cond[1] == "not")
                    else:
                        pos = bool(atoms) and all(y is False for a, y in atoms if a[0] != "is")
                    rep.check(pos, f"{short(b.name)}:live:{x}", f.name, f"{x} is dropped although its slot may be read later", f"{x} dropped only when its slot is never read")
    # the collected set contains the slot of every reader
    for (fn, h), (bd, hh, entry, backs, exits, tag) in seen.items():
        if fn != b.name:
            continue
        for V in sorted(readers):
            paths = []
            for o in backs:
                el = [a[1] for a in o.st.pc if a[0] == "is" and a[1][0] == "idx" and (o.st.pc[a] == V or (isinstance(o.st.pc[a], tuple) and V not in o.st.pc[a][1]))]
                for e in el:
                    pay = ("fld", e, V, "0")
                    got = any(entry.mem.get(r) != x and pay in list(vm.walk(x)) for r, x in o.st.mem.items())
                    paths.append(got)
            if paths:
                rep.check(all(paths), f"{short(b.name)}:collect:{V}", b.name, f"the set of live slots misses the slot of some {V}", f"slots read by {V} are collected")
