"""The bytecode machine: transfer function of each instruction in each executor, in a common vocabulary:
('st',-1) top of stack on entry, ('ca',slot) cache cell, ('arg',f) instruction payload,
('kc',i) i-th constant, ('pa',i) i-th parameter, ('col',p,j) column p at row j."""
from sx import *
import sx, execs
from execs import executors, instruction_enum, numeric_leaf, mkargs, raw
from mir import callee


class Path:
    __slots__ = ("conds", "delta", "writes", "cwrites", "kind", "problem")

    def __init__(self):
        self.writes = {}
        self.cwrites = {}
        self.problem = None


class Executor:
    def __init__(self, body, hdr):
        self.body = body
        self.name = body.name
        self.hdr = hdr
        self.effects = {}
        self.wide = False
        self.roles = {}
        self.bad = []
        self.result = None


def contains_adt_instr(v, vnames):
    return v in vnames


def walk(t):
    w = [t]
    seen = set()
    while w:
        x = w.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        w.extend(x)


def extract(prog):
    A = instruction_enum(prog)
    roots, allx = executors(prog, A)
    variants = [v["name"] for v in prog.adts[A]["variants"]]
    res = []
    for body, sw, n in roots:
        e = Executor(body, sw)
        e.adt = A
        e.variants = variants
        it, kind, rr = raw(prog, body, sw, A)
        e.it = it
        e.kind = kind
        e.called = set(it.called) | {body.name}
        if not rr:
            raise Give(f"no dispatch loop reached in {body.name}")
        canon_executor(prog, e, it, kind, rr, set(variants))
        res.append(e)
    return A, variants, res


def find_instr_atom(pc, variants):
    for a, v in pc.items():
        if a[0] == "is" and isinstance(v, str) and v in variants and not (v in ("Some", "None", "Ok", "Err")):
            return a[1], v
    return None, None


def canon_executor(prog, e, it, kind, rr, variants):
    # the dispatch may be interpreted several times (widening rounds keep only the stable one): take the last
    entry, backs, exits, header, tag = rr[-1]
    e.entry, e.exits, e.tag = entry, exits, tag
    paths = []
    for o in backs:
        ins, v = find_instr_atom(o.st.pc, variants)
        if v is None:
            if o.kind == "panic":
                continue
            e.bad.append(("no-variant", o.kind))
            continue
        paths.append((ins, v, o))
    # candidate (root, height symbol)
    score = {}
    for ins, v, o in paths:
        for r, nv in o.st.mem.items():
            ev = entry.mem.get(r)
            if nv == ev or nv[0] != "seq":
                continue
            for wi, wv in nv[3]:
                c, d = lin_parts(wi)
                if len(d) == 1 and list(d.values()) == [1]:
                    h = list(d)[0]
                    if sx.op and h[0] == "fld" and h[1] == ins:
                        continue
                    score[(r, h)] = score.get((r, h), 0) + 1
    if not score:
        raise Give("no operand stack identified in " + e.name)
    (S, H), _ = max(score.items(), key=lambda x: x[1])
    e.S, e.H = S, H
    ev = entry.mem.get(S)
    sbase = ev[1] if ev[0] == "seq" else ev
    # where the height lives
    Hloc = None
    for r, x in entry.mem.items():
        if x == H and r != S:
            Hloc = ("val", r)
            break
    if Hloc is None:
        if ev[0] == "seq" and ev[2] == H:
            Hloc = ("len", S)
        elif H == ("len", ev):
            Hloc = ("len", S)
    if Hloc is None:
        raise Give("stack height location")
    e.Hloc = Hloc
    # cache root: other root written at payload index
    C = None
    for ins, v, o in paths:
        for r, nv in o.st.mem.items():
            if r == S or nv == entry.mem.get(r) or nv[0] != "seq":
                continue
            for wi, wv in nv[3]:
                if wi[0] == "fld" and wi[1] == ins:
                    C = r
    e.C = C
    cbase = None
    if C is not None:
        cv = entry.mem[C]
        cbase = cv[1] if cv[0] == "seq" else cv
    # the entry value may be read through its raw form
    sbases = {sbase, ev}
    cbases = {cbase, entry.mem.get(C)} if C is not None else set()
    # constants / parameters arrays: by the LoadConst / LoadParam arms is naming; use structure instead:
    e.arrays = {}

    def canon(t, ins):
        memo = {}

        def go(x):
            if not isinstance(x, tuple) or not x:
                return x
            k = id(x)
            if k in memo:
                return memo[k][1]
            r = None
            if x[0] == "idx" and len(x) == 3:
                if x[1] in sbases:
                    d = iconst_diff(x[2], H)
                    if d is not None:
                        r = ("st", d)
                elif x[1] in cbases:
                    r = ("ca", go(x[2]))
            if r is None and x[0] == "fld" and len(x) == 4 and x[1] == ins:
                r = ("arg", x[3])
            if r is None:
                ys = tuple(go(y) for y in x)
                r = x if ys == x else it.renorm(ys)
                if r and r[0] == "lin" and len(r) == 3:
                    # re-sort after renaming
                    acc = I(r[1])
                    for kk, c in r[2]:
                        acc = iadd(acc, imul(I(c), kk))
                    r = acc
            memo[k] = (x, r)
            return r
        return go(t)

    e.canon = canon
    for ins, v, o in paths:
        p = Path()
        p.kind = o.kind
        p.conds = {canon(a, ins): x for a, x in o.st.pc.items() if entry.pc.get(a) != x and a != ("is", ins)
                   and not (a[0] == "has" and tag and it.has_tag(a, tag))}
        if Hloc[0] == "val":
            p.delta = iconst_diff(o.st.mem.get(Hloc[1], H), H)
        else:
            nv = o.st.mem.get(S)
            p.delta = 0 if nv == ev else iconst_diff(nv[2] if nv[0] == "seq" else ("len", nv), H)
        nv = o.st.mem.get(S)
        if nv != ev:
            if nv[0] != "seq" or nv[1] not in sbases:
                p.problem = "operand stack replaced as a whole"
            else:
                for wi, wv in nv[3]:
                    d = iconst_diff(wi, H)
                    if d is None:
                        p.problem = "write at an index unrelated to the stack height: " + repr(wi)[:200]
                    else:
                        p.writes[d] = canon(it.deep(o.st, wv), ins)
        if C is not None:
            nc = o.st.mem.get(C)
            if nc != entry.mem.get(C):
                if nc[0] != "seq":
                    p.problem = "cache replaced as a whole"
                else:
                    for wi, wv in nc[3]:
                        p.cwrites[canon(wi, ins)] = canon(it.deep(o.st, wv), ins)
        # other side effects
        e.effects.setdefault(v, []).append(p)
    # cells above the new top are dead
    for v, ps in e.effects.items():
        for p in ps:
            if p.delta is not None:
                p.writes = {k: x for k, x in p.writes.items() if k < p.delta}
                # identity writes
                p.writes = {k: x for k, x in p.writes.items() if x != ("st", k)}
    e.wide = any(x[0] == "v4" for ps in e.effects.values() for p in ps for w in p.writes.values() for x in walk(w))
