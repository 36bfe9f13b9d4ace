"""P01: every bytecode instruction computes the same function in every executor."""
from sx import *
import sx, vm, execs, agree, alg
from alg import Norm

RULE = ("For each bytecode instruction and each executor (single-point inline, single-point heap, each SIMD lane, scalar batch "
        "remainder), abstract interpretation of the executor's MIR gives, per path, the net stack effect, the value written to each "
        "operand-stack and cache cell as a term over the instruction payload, entry stack, cache, constants and parameters. For every "
        "pair of paths of two executors whose conditions do not exclude each other, these must be equal (real-algebra normal form). "
        "Every instruction must be handled by every executor; an executor may not leave the stack height unknown.")


def sig(p):
    return (p.delta, p.writes, p.cwrites, p.problem)


def lane_paths(paths, k, wide):
    """scalar view: project conds/writes to lane k"""
    out = []
    seen = set()
    for p in paths:
        if wide:
            conds = {}
            for a, v in p.conds.items():
                if any(x[0] == "lane" and len(x) == 3 and x[2] != k for x in vm.walk(a) if x):
                    continue
                conds[strip(agree.lane_of(a, k), k)] = v
            writes = {o: strip(agree.lane_of(w, k), k) for o, w in p.writes.items()}
            cw = {strip(c, k): strip(agree.lane_of(w, k), k) for c, w in p.cwrites.items()}
        else:
            conds, writes, cw = dict(p.conds), dict(p.writes), dict(p.cwrites)
        conds = {inrange(a): v for a, v in conds.items()}
        if conds.get("inrange") is False:
            continue
        conds.pop("inrange", None)
        q = vm.Path()
        q.conds, q.writes, q.cwrites, q.delta, q.problem = conds, writes, cw, p.delta, p.problem
        key = repr((sorted(map(repr, conds.items())), sorted(writes.items()), sorted(map(repr, cw.items())), p.delta))
        if key not in seen:
            seen.add(key)
            out.append(q)
    return out


def inrange(a):
    # a parameter index below the number of supplied parameters: the calling contract (validated by the batch API,
    # checked at compile time for the indices themselves)
    if a[0] == "op" and a[1] == "lt" and a[2] == ("arg", "0") and a[3] == ("len", ("var", "arg2")):
        return "inrange"
    return a


def strip(t, k, memo=None):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "lane" and len(t) == 3 and t[2] == k and t[1][0] in ("st", "ca"):
        return strip(t[1], k)
    ys = tuple(strip(y, k) for y in t)
    return t if all(a is b for a, b in zip(ys, t)) else ys


def compare(N, p, q):
    """None if the two paths agree (or cannot be decided), else a text"""
    if p.delta != q.delta:
        return f"net stack effect {p.delta} vs {q.delta}"
    und = []
    eqs = {}
    for a, x in list(p.conds.items()) + list(q.conds.items()):
        # the path fixes an integer payload: use the value
        if isinstance(a, tuple) and a[0] == "op" and a[1] == "eq" and x is True:
            for u, w in ((a[2], a[3]), (a[3], a[2])):
                if w[0] == "i" and u[0] != "i":
                    eqs[u] = w
    if eqs:
        p, q = fix(p, eqs), fix(q, eqs)
    for o in sorted(set(p.writes) | set(q.writes)):
        a, b = p.writes.get(o, ("st", o)), q.writes.get(o, ("st", o))
        r = N.eq(a, b)
        if r is False:
            return f"stack cell {o}: {N.show(a)} vs {N.show(b)}"
        if r is None:
            und.append(o)
    for c in set(p.cwrites) | set(q.cwrites):
        a, b = p.cwrites.get(c, ("ca", c)), q.cwrites.get(c, ("ca", c))
        r = N.eq(a, b)
        if r is False:
            return f"cache slot {c}: {N.show(a)} vs {N.show(b)}"
    return None if not und else ("?", und)


def fix(p, eqs):
    r = vm.Path()
    r.delta, r.problem, r.conds = p.delta, p.problem, p.conds
    r.writes = {k: subst(w, eqs) for k, w in p.writes.items()}
    r.cwrites = {k: subst(w, eqs) for k, w in p.cwrites.items()}
    return r


def subst(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    ys = tuple(subst(y, m) for y in t)
    return t if all(a is b for a, b in zip(ys, t)) else ys


def run(prog, rep):
    A, variants, ex = vm.extract(prog)
    us, sites = agree.unify(prog, ex)
    rep.notes["instructions"] = len(variants)
    rep.notes["executors"] = [f"{u.name} ({u.e.kind}{', SIMD' if u.wide else ''})" for u in us]
    for e in ex:
        rep.functions |= e.called
    rep.floor("bytecode instructions", len(variants), 60)
    rep.floor("executors", len(us), 4)
    rep.floor("SIMD executors", sum(u.wide for u in us), 1)
    views = []
    for u in us:
        if u.e.bad:
            rep.violate(f"dispatch:{short(u.name)}", u.name, f"paths through the dispatch loop that execute no instruction: {u.e.bad}")
        if u.wide:
            for k in range(4):
                views.append((short(u.name) + f"[lane {k}]", u, k))
        else:
            views.append((short(u.name), u, None))
    N = Norm()
    proj = {}
    for nm, u, k in views:
        for v in variants:
            ps = u.effects.get(v)
            if not ps:
                rep.violate(f"unhandled:{v}:{short(u.name)}", u.name, f"instruction {v} has no executing path")
                continue
            for p in ps:
                if p.problem or p.delta is None:
                    rep.violate(f"effect:{v}:{short(u.name)}", u.name, f"instruction {v}: {p.problem or 'net stack effect is not a constant'}")
            proj[(nm, v)] = lane_paths(ps, k or 0, u.wide)
    for v in variants:
        for i in range(len(views)):
            for j in range(i + 1, len(views)):
                a, b = views[i][0], views[j][0]
                if views[i][1].wide and views[j][1].wide:
                    continue
                pa, pb = proj.get((a, v)), proj.get((b, v))
                if not pa or not pb:
                    continue
                bad = und = None
                n = 0
                for p in pa:
                    for q in pb:
                        if alg.conflict(p.conds, q.conds):
                            continue
                        n += 1
                        r = compare(N, p, q)
                        if isinstance(r, tuple):
                            und = r
                        elif r and not bad:
                            bad = r + f"   under {condtext(N, p.conds)} / {condtext(N, q.conds)}"
                key = f"{v}:{views[i][0]}:{views[j][0]}"
                if bad:
                    rep.violate(key, f"{views[i][1].name} / {views[j][1].name}", f"instruction {v}: {a} vs {b}: {bad}")
                elif n == 0:
                    rep.undec(key, "no compatible pair of paths")
                elif und:
                    rep.undec(key, f"terms too large to normalise: {und[1]}")
                else:
                    rep.ok(f"{v}: {a} = {b} on {n} path pairs")
    # declared stack effect table
    declared(prog, A, variants, us, rep)


def short(n):
    return n.split("::")[-1]


def condtext(N, c):
    return "{" + ", ".join(f"{'' if v is True else 'not '}{N.show(a) if isinstance(a, tuple) else a}" for a, v in list(c.items())[:4]) + "}"


def declared(prog, A, variants, us, rep):
    """total functions Instruction -> i32 of the instruction type's own module: the declared stack effects"""
    for b in prog.fns():
        if not (b.nargs == 1 and b.locals[0] == "i32" and b.locals[1].lstrip("&") == A and "::tests::" not in b.name):
            continue
        it = Interp(prog)
        st = State()
        outs = it.run(st, b, execs.mkargs(st, b))
        per = {}
        for o in outs:
            v = None
            for a, x in o.st.pc.items():
                if a[0] == "is" and x in variants:
                    v = x
                elif a[0] == "is" and isinstance(x, tuple):
                    pass
            per.setdefault(v, []).append(o)
        rep.functions.add(b.name)
        for v in variants:
            os_ = per.get(v) or per.get(None) or []
            ds = {p.delta for u in us for p in u.effects.get(v, [])}
            for o in os_:
                if o.kind != "ret":
                    continue
                d = o.val[1] if o.val[0] == "i" else None
                if len(ds) == 1 and d is not None:
                    rep.check(ds == {d}, f"declared:{v}", b.name, f"{v}: declared stack effect {d}, executed {ds}",
                              f"declared stack effect of {v} = {d}")
                elif d is None:
                    rep.undec(f"declared:{v}", "not a constant")
