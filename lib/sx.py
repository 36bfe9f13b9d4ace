"""Abstract interpretation of MIR in a Herbrand (uninterpreted term) domain with trace partitioning.

Every value is a term over the inputs; branches whose condition is not decided by the terms split the
trace; loops are widened to their stable shape (the values changed by the body become fresh symbols)
and summarised as `loop` terms.  No program is run and no solver is asked: two program points agree
when their terms have the same normal form (see alg.py).
"""
import sys
from mir import callee, callee_ref

sys.setrecursionlimit(100000)

ERASE_OWNERS = {
    "std::boxed::Box", "std::ptr::Unique", "core::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "alloc::boxed::Box", "std::mem::MaybeDangling", "core::mem::MaybeDangling",
    "core::ptr::unique::Unique", "std::pin::Pin",
}


class Give(Exception):
    """analysis gives up on this function (result: top)"""


class Panic(Exception):
    pass


def I(n):
    return ("i", n)


def B(b):
    return ("b", bool(b))


def F(x):
    if isinstance(x, str):
        x = float(x)
    return ("f", repr(float(x)))


UNIT = ("tup", ())
TRUE, FALSE = ("b", True), ("b", False)


def adt(name, var, fields=(), vals=(), vi=None):
    return ("adt", name, var, tuple(fields), tuple(vals))


def some(v):
    return adt("std::option::Option", "Some", ("0",), (v,))


NONE = adt("std::option::Option", "None")


def ok(v):
    return adt("std::result::Result", "Ok", ("0",), (v,))


def err(v):
    return adt("std::result::Result", "Err", ("0",), (v,))


# ---- integer linear forms -------------------------------------------------------------------
def lin_parts(t):
    if t[0] == "i":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("i", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def iadd(a, b, s=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(c1 + s * c2, d)


def imul(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == "i":
            c, d = lin_parts(y)
            return mk_lin(c * x[1], {k: v * x[1] for k, v in d.items()})
    return ("op", "imul") + tuple(sorted((a, b), key=repr))


def iconst_diff(a, b):
    """a-b if constant else None"""
    d = iadd(a, b, -1)
    return d[1] if d[0] == "i" else None


INT_TYS = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
FLOAT_TYS = {"f64", "f32"}


def op(name, *a):
    return ("op", name) + a


def mk_not(t):
    if t[0] == "b":
        return B(not t[1])
    if t[0] == "op" and t[1] == "not":
        return t[2]
    return op("not", t)


def mk_cmp(name, a, b, isint=False):
    if name in ("Gt", "Ge"):
        name, a, b = {"Gt": "Lt", "Ge": "Le"}[name], b, a
    if a[0] in ("i", "ch", "b", "s") and a[0] == b[0]:
        x, y = a[1], b[1]
        return B({"Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[name])
    if a[0] == "f" and b[0] == "f":
        x, y = float(a[1]), float(b[1])
        return B({"Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[name])
    if name == "Ne":
        return mk_not(mk_cmp("Eq", a, b, isint))
    if isint:
        d = iconst_diff(a, b)
        if d is not None:
            return B({"Lt": d < 0, "Le": d <= 0, "Eq": d == 0}[name])
        if name == "Le":  # a<=b  ==  not b<a
            return mk_not(mk_cmp("Lt", b, a, True))
        # canonical linear form: a-b < 0
        c, dd = lin_parts(iadd(a, b, -1))
        if name == "Eq":
            items = sorted(dd.items(), key=repr)
            if items and items[0][1] < 0:
                c, dd = -c, {k: -v for k, v in dd.items()}
            pos = mk_lin(0, {k: v for k, v in dd.items() if v > 0})
            neg = mk_lin(-c, {k: -v for k, v in dd.items() if v < 0})
            a, b = pos, neg
            if repr(a) > repr(b) and a[0] != "i":
                a, b = b, a
            return op("eq", a, b)
        # len terms are non-negative:  len(x) < 1  <=>  len(x) == 0 ;  0 < len(x) <=> not eq 0
        pos = mk_lin(0, {k: v for k, v in dd.items() if v > 0})
        neg = mk_lin(-c, {k: -v for k, v in dd.items() if v < 0})
        if neg == I(1) and pos[0] in ("len",):
            return op("eq", pos, I(0))
        if pos == I(0) and neg[0] in ("len",):
            return mk_not(op("eq", neg, I(0)))
        if c <= 0 and pos == I(0) and neg[0] == "lin" and all(v > 0 for k, v in neg[2]) and neg[1] > 0:
            return TRUE
        return op("lt", pos, neg)
    if name == "Eq":
        if a == b and not is_floaty(a):
            return TRUE
        if repr(a) > repr(b):
            a, b = b, a
        if a[0] == "adt" and b[0] == "adt" and a[2] != b[2]:
            return FALSE
        if a[0] == "b":
            return b if a[1] else mk_not(b)
        if b[0] == "b":
            return a if b[1] else mk_not(a)
        return op("eq", a, b)
    return op({"Lt": "lt", "Le": "le"}[name], a, b)


def is_floaty(t):
    return t[0] in ("op", "app", "var", "fld", "idx", "f")


class State:
    __slots__ = ("mem", "pc", "ev", "facts", "dead")

    def __init__(self):
        self.mem = {}
        self.pc = {}
        self.ev = ()
        self.facts = ()
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = dict(self.pc)
        s.ev = self.ev
        s.facts = self.facts
        s.dead = False
        return s


class Out:
    __slots__ = ("st", "val", "kind")

    def __init__(self, st, val, kind="ret"):
        self.st, self.val, self.kind = st, val, kind


class Interp:
    def __init__(self, prog, opaque=None, models=None, max_outs=4000, max_depth=14, max_steps=400000, inline=None):
        self.prog = prog
        self.opaque = opaque or (lambda n: False)
        self.inline = inline
        self.models = models or {}
        self.max_outs = max_outs
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.steps = 0
        self.uid = 0
        self.enum_maps = {}
        self.loop_hooks = []
        self.stack = []
        self.unmodelled = {}
        self.called = set()
        self.loop_summ = {}
        self.bv = 0
        self.soft, self.rng, self.partial = None, None, False   # soft budget: after it, one random branch at each fork
        self.shapes = None      # (enum term, variant) -> [(list field, lengths to assume)]

    def fresh(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    # ---------------------------------------------------------------- memory
    def get_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "D":
                return root[1]
            return ("var", "undef:" + repr(root))
        return v

    def proj_load(self, st, v, path):
        for p in path:
            v = self.proj1(st, v, p)
        return v

    def proj1(self, st, v, p):
        k = p[0]
        if k == "f":
            return self.field(st, v, p[1])
        if k == "v":
            if v[0] == "adt":
                return v
            return ("as", v, p[1])
        if k == "e":
            return self.index(st, v, p[1])
        if k == "sub":
            return ("op", "subslice", v, p[1], p[2])
        raise Give(f"proj {p}")

    def field(self, st, v, name):
        if v[0] == "adt":
            if name in v[3]:
                return v[4][v[3].index(name)]
            raise Give(f"field {name} of {v[1]}::{v[2]}")
        if v[0] == "tup":
            try:
                return v[1][int(name)]
            except (ValueError, IndexError):
                raise Give(f"tuple field {name}")
        if v[0] == "clo":
            return v[2][int(name)]
        if v[0] == "with":
            for kk, x in v[2]:
                if kk == ("f", name):
                    return x
            return self.field(st, v[1], name)
        if v[0] == "as":
            return self.shaped(st, ("fld", v[1], v[2], name))
        if v[0] == "ptr":
            # field through an erased pointer
            return self.field(st, self.load_ptr(st, v), name)
        return ("fld", v, "", name)

    def index(self, st, v, i):
        if v[0] == "ptr":
            v = self.load_ptr(st, v)
        if v[0] == "arr":
            if i[0] == "i":
                if 0 <= i[1] < len(v[1]):
                    return v[1][i[1]]
                raise Panic("index out of range")
            return ("idx", v, i)
        if v[0] == "rep":
            return v[1]
        if v[0] == "seq":
            for wi, wv in reversed(v[3]):
                d = iconst_diff(wi, i)
                if d == 0:
                    return wv
                if d is None:
                    return ("idx", v, i)
            return self.index(st, v[1], i)
        if v[0] == "bytes" and i[0] == "i":
            return I(v[1][i[1]])
        if v[0] == "op" and v[1] == "subslice":
            return self.index(st, v[2], iadd(v[3], i))
        return ("idx", v, i)

    def length(self, st, v):
        if v[0] == "ptr":
            v = self.load_ptr(st, v)
        if v[0] in ("arr",):
            return I(len(v[1]))
        if v[0] == "rep":
            return v[2]
        if v[0] == "seq":
            return v[2]
        if v[0] == "s":
            return I(len(v[1].encode()))
        if v[0] == "op" and v[1] == "subslice":
            return iadd(v[4], v[3], -1)
        return ("len", v)

    def proj_store(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        k = p[0]
        if k == "f":
            name = p[1]
            if v[0] == "adt":
                vals = list(v[4])
                if name not in v[3]:
                    raise Give("store field")
                i = v[3].index(name)
                vals[i] = self.proj_store(st, vals[i], path[1:], new)
                return ("adt", v[1], v[2], v[3], tuple(vals))
            if v[0] == "tup" and name.isdigit() and int(name) < len(v[1]):
                vals = list(v[1])
                vals[int(name)] = self.proj_store(st, vals[int(name)], path[1:], new)
                return ("tup", tuple(vals))
            if v[0] == "clo":
                vals = list(v[2])
                vals[int(name)] = self.proj_store(st, vals[int(name)], path[1:], new)
                return ("clo", v[1], tuple(vals))
            old = self.field(st, v, name) if path[1:] else None
            nv = self.proj_store(st, old, path[1:], new) if path[1:] else new
            base, ups = (v[1], dict(v[2])) if v[0] == "with" else (v, {})
            ups[("f", name)] = nv
            return ("with", base, tuple(sorted(ups.items(), key=repr)))
        if k == "v":
            if v[0] == "as":
                return self.proj_store(st, v, path[1:], new)
            if v[0] == "var" and v[1].startswith("undef:"):
                return self.proj_store(st, v, path[1:], new)
            return self.proj_store(st, v, path[1:], new)
        if k == "e":
            i = p[1]
            old = self.index(st, v, i) if path[1:] else None
            nv = self.proj_store(st, old, path[1:], new) if path[1:] else new
            if v[0] == "ptr":
                self.store(st, v[1], v[2] + tuple(path), new)
                return v
            if v[0] == "arr" and i[0] == "i" and 0 <= i[1] < len(v[1]):
                l = list(v[1])
                l[i[1]] = nv
                return ("arr", tuple(l))
            if v[0] != "seq":
                v = ("seq", v, self.length(st, v), ())
            ws = []
            known = True
            for wi, wv in v[3]:
                d = iconst_diff(wi, i)
                if d == 0:
                    continue
                ws.append((wi, wv))
                if d is None:
                    known = False
            ws.append((i, nv))
            if known:
                ws.sort(key=repr)
            return ("seq", v[1], v[2], tuple(ws))
        if k == "sub":
            if v[0] == "ptr":
                self.store(st, v[1], v[2] + tuple(path), new)
                return v
            if path[1:] and path[1][0] == "e":
                return self.proj_store(st, v, (("e", iadd(p[1], path[1][1])),) + tuple(path[2:]), new)
            if path[1:] and path[1][0] == "sub":
                q = path[1]
                return self.proj_store(st, v, (("sub", iadd(p[1], q[1]), iadd(p[1], q[2])),) + tuple(path[2:]), new)
            if len(path) == 1:
                if new[0] == "seq" and new[1] == ("op", "subslice", v, p[1], p[2]):
                    # element updates of the sub-slice
                    for wi, wv in new[3]:
                        v = self.proj_store(st, v, (("e", iadd(p[1], wi)),), wv)
                    return v
                if new == ("op", "subslice", v, p[1], p[2]):
                    return v
                return ("seq", ("op", "splice", v, p[1], p[2], new), self.length(st, v), ())
        raise Give(f"store proj {p}")

    def load(self, st, root, path):
        v = self.get_root(st, root)
        for n, p in enumerate(path):
            if v[0] == "ptr" and p[0] in ("f", "v", "e"):
                v = self.load_ptr(st, v)
            v = self.proj1(st, v, p)
        return v

    def load_ptr(self, st, v):
        n = 0
        while v[0] == "ptr":
            w = self.load(st, v[1], v[2])
            if w == v:
                raise Give("self pointer")
            return w
        return v

    def deep(self, st, v, d=0):
        """value with every pointer replaced by what it points to"""
        if d > 60:
            raise Give("deep")
        k = v[0]
        if k == "ptr":
            return self.deep(st, self.load(st, v[1], v[2]), d + 1)
        if k == "adt":
            return ("adt", v[1], v[2], v[3], tuple(self.deep(st, x, d + 1) for x in v[4]))
        if k in ("tup", "arr"):
            return (k, tuple(self.deep(st, x, d + 1) for x in v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        if k in ("op", "app"):
            return v[:2] + tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in v[2:])
        if k == "seq":
            return ("seq", self.deep(st, v[1], d + 1), v[2],
                    tuple((i, self.deep(st, x, d + 1)) for i, x in v[3]))
        if k == "with":
            return ("with", self.deep(st, v[1], d + 1), tuple((i, self.deep(st, x, d + 1)) for i, x in v[2]))
        if k == "iter":
            return ("iter", self.deep(st, v[1], d + 1) if isinstance(v[1], tuple) else v[1], v[2])
        if k in ("fld", "as", "len", "discr"):
            return v[:1] + (self.deep(st, v[1], d + 1),) + v[2:]
        if k == "idx":
            return ("idx", self.deep(st, v[1], d + 1), self.deep(st, v[2], d + 1))
        if k in ("slice", "vals", "range", "enum", "map", "zip", "rev", "skip", "take", "chain", "opq", "filter",
                 "windows", "hof", "rep"):
            return (k,) + tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
                                for x in v[1:])
        return v

    def store(self, st, root, path, new):
        v = self.get_root(st, root)
        # walk through embedded pointers
        cur = v
        for n, p in enumerate(path):
            if cur[0] == "ptr":
                self.store(st, cur[1], cur[2] + tuple(path[n:]), new)
                return
            try:
                cur = self.proj1(st, cur, p) if n + 1 < len(path) else cur
            except (Give, Panic):
                cur = ("var", "undef:")
        st.mem[root] = self.proj_store(st, v, tuple(path), new)

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, pl):
        """-> (root, path)"""
        if isinstance(pl, int):
            return ("L", fr, pl), ()
        root, path = ("L", fr, pl[0]), ()
        for e in pl[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, root, path)
                if v[0] == "ptr":
                    root, path = v[1], v[2]
                else:
                    root, path = ("D", v), ()
            elif k == ".":
                if e[3] in ERASE_OWNERS:
                    continue
                path = path + (("f", e[2] if e[2] else str(e[1])),)
            elif k == "as":
                path = path + (("v", e[2]),)
            elif k == "[]":
                path = path + (("e", self.get_root(st, ("L", fr, e[1]))),)
            elif k == "[c]":
                if e[3]:
                    base = self.load(st, root, path)
                    path = path + (("e", iadd(self.length(st, base), I(e[1]), -1)),)
                else:
                    path = path + (("e", I(e[1])),)
            elif k == "[s]":
                path = path + (("sub", I(e[1]), I(e[2]) if not e[3] else ("op", "fromend", I(e[2]))),)
            else:
                raise Give("place")
        return root, path

    def rd(self, st, fr, pl):
        r, p = self.place(st, fr, pl)
        return self.load(st, r, p)

    def const(self, c):
        if "fnref" in c:
            f = c["fnref"]
            return ("fn", f.get("res", f["fn"]), tuple(f["targs"]), f["fn"])
        ty = c.get("ty", "")
        if "clo" in c:
            return ("clo", c["clo"], ())
        if "promoted" in c:
            return self.promoted(c)
        if "f" in c:
            return F(c["f"])
        if "i" in c:
            m = self.enum_const(ty, c["i"])
            return m if m else I(c["i"])
        if "b" in c:
            return B(c["b"])
        if "ch" in c:
            return ("ch", c["ch"])
        if "str" in c:
            return ("s", c["str"])
        if "const" in c:
            return self.named_const(c["const"])
        if "static" in c:
            return ("static", c["static"])
        if c.get("zst"):
            if ty == "()":
                return UNIT
            return ("zst", ty)
        if "mem" in c:
            return ("bytes", tuple(c["mem"]), ty)
        if "fnptr" in c:
            return ("fn", c["fnptr"], (), c["fnptr"])
        if "expr" in c:
            return ("cexpr", c["expr"])
        return ("cunk", ty, self.fresh("c"))

    def enum_const(self, ty, i):
        a = self.prog.adts.get(ty)
        if a and a["kind"] == "Enum":
            for v in a["variants"]:
                if v["discr"] == i and not v["fields"]:
                    return adt(ty, v["name"])
        if ty.startswith("std::option::Option") and i == 0:
            return NONE
        return None

    def promoted(self, c):
        n = f"{c['const']}::promoted[{c['promoted']}]"
        b = self.prog.get(n)
        if not b:
            return ("cunk", n, "")
        st = State()
        outs = self.run(st, b, [])
        if len(outs) != 1 or outs[0].kind != "ret":
            return ("cunk", n, "")
        return self.deep(outs[0].st, outs[0].val)

    def named_const(self, n):
        b = self.prog.get(n)
        if not b:
            return ("const", n)
        try:
            outs = self.run(State(), b, [])
        except Give:
            return ("const", n)
        if len(outs) != 1 or outs[0].kind != "ret":
            return ("const", n)
        return self.deep(outs[0].st, outs[0].val)

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(o[1])
        return self.rd(st, fr, o[1])

    def opty(self, body, o):
        if o[0] == "k":
            return o[1].get("ty", "")
        p = o[1]
        if isinstance(p, int):
            return body.locals[p]
        return None

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, body, fr, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "raw":
            root, path = self.place(st, fr, r[2])
            # a reference to something already reached through a symbolic value stays symbolic if immutable
            return ("ptr", root, path, bool(r[1]))
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ta, tb = self.opty(body, r[2]), self.opty(body, r[3])
            dt = body.locals[dst] if isinstance(dst, int) else None
            return self.binop(st, r[1], a, b, ta or tb, dt)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = self.opty(body, r[2])
                if t == "bool" or a[0] == "b" or (a[0] == "op" and a[1] in ("lt", "le", "eq", "not")):
                    return mk_not(a)
                return op("bnot", a)
            if r[1] == "Neg":
                if a[0] == "i":
                    return I(-a[1])
                t = self.opty(body, r[2]) or (body.locals[dst] if isinstance(dst, int) else None)
                if t in INT_TYS or a[0] == "lin":
                    return iadd(I(0), a, -1)
                if a[0] == "f":
                    return F(-float(a[1]))
                return op("neg", a)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            return op(r[1], a)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], self.opty(body, r[2]))
        if k == "discr":
            v = self.rd(st, fr, r[1])
            if v[0] == "ptr":
                v = self.load_ptr(st, v)
            m = {x[0]: x[1] for x in r[3]}
            self.enum_maps[r[2]] = m
            if v[0] == "adt":
                for n, nm in m.items():
                    if nm == v[2]:
                        return ("dv", nm, n)
                raise Give(f"discr {v[2]} {r[2]}")
            return ("discr", v, r[2])
        if k == "agg":
            vals = tuple(self.operand(st, fr, x) for x in r[2])
            kd = r[1]
            if kd[0] == "adt":
                if kd[1] in ERASE_OWNERS and len(vals) == 1:
                    return vals[0]
                if kd[1] in ("std::ops::RangeInclusive",) and len(vals) == 3:
                    return ("adt", kd[1], kd[1], ("start", "end", "exhausted"), vals)
                return ("adt", kd[1], kd[3], tuple(kd[4]), vals)
            if kd[0] == "array":
                return ("arr", vals)
            if kd[0] == "tuple":
                return ("tup", vals)
            if kd[0] == "closure":
                return ("clo", kd[1], vals)
            if kd[0] == "rawptr":
                return vals[0]
            raise Give("agg")
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            nv = I(int(n)) if n.isdigit() else ("cexpr", n)
            if n.isdigit() and int(n) <= 8:
                return ("arr", (v,) * int(n))
            return ("rep", v, nv)
        if k == "tls":
            return ("static", r[1])
        raise Give(f"rvalue {k}")

    def binop(self, st, o, a, b, ty, dt=None):
        checked = o.endswith("WithOverflow")
        o = o.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] == "ptr" or b[0] == "ptr":
            if o == "Offset":
                return self.ptr_add(a, b)
            if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if a == b and o in ("Eq", "Ne"):
                    return B(o == "Eq")
                return mk_cmp(o, op("addr", self.deep(st, a)), op("addr", self.deep(st, b)))
        isint = ty in INT_TYS or (ty is None and (a[0] in ("i", "lin") or b[0] in ("i", "lin")))
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "dv":
                a = I(a[2])
            if b[0] == "dv":
                b = I(b[2])
            return mk_cmp(o, a, b, isint)
        if isint:
            if o == "Add":
                v = iadd(a, b)
            elif o == "Sub":
                v = iadd(a, b, -1)
            elif o == "Mul":
                v = imul(a, b)
            elif a[0] == "i" and b[0] == "i" and o in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem") and not (
                    o in ("Div", "Rem") and (b[1] == 0 or a[1] < 0)):
                x, y = a[1], b[1]
                v = I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << y if y < 128 else 0,
                       "Shr": x >> y, "Div": x // y if y else 0, "Rem": x % y if y else 0}[o])
            elif o == "Div" and ty and ty.startswith("u") and b[0] == "i" and b[1] == 1:
                v = a
            elif o in ("BitAnd", "BitOr", "BitXor"):
                v = ("op", o) + tuple(sorted((a, b), key=repr))
            else:
                v = op("i" + o, a, b)
            if checked:
                return ("tup", (v, FALSE))
            return v
        if ty == "bool" or a[0] == "b" or b[0] == "b":
            if o == "BitAnd":
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
                if FALSE in (a, b):
                    return FALSE
                return ("op", "and") + tuple(sorted((a, b), key=repr))
            if o == "BitOr":
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
                if TRUE in (a, b):
                    return TRUE
                return ("op", "or") + tuple(sorted((a, b), key=repr))
            if o == "BitXor":
                return mk_not(mk_cmp("Eq", a, b))
        n = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Cmp": "cmp3"}.get(o, o)
        return op(n, a, b)

    def ptr_add(self, a, b, s=1):
        if a[0] != "ptr":
            return ("pofs", a, b) if s == 1 else ("pofs", a, iadd(I(0), b, -1))
        path = a[2]
        if path and path[-1][0] == "e":
            return ("ptr", a[1], path[:-1] + (("e", iadd(path[-1][1], b, s)),), a[3])
        return ("ptr", a[1], path + (("e", iadd(I(0), b, s)),), a[3])

    def cast(self, st, kind, v, ty, sty=None):
        if kind.startswith("Coerce") or kind.startswith("PtrToPtr") or kind in ("Transmute", "BoxDerefTransmute", "FnPtrToPtr", "Subtype"):
            return v
        if kind == "IntToInt":
            if v[0] == "dv":
                return I(v[2])
            if v[0] == "ch":
                return I(ord(v[1]))
            if v[0] == "b":
                return I(1 if v[1] else 0)
            if v[0] == "i":
                n = v[1]
                if ty in ("u8", "u16", "u32", "u64", "usize"):
                    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}[ty]
                    n &= (1 << w) - 1
                elif ty in ("i8", "i16", "i32", "i64", "isize"):
                    w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}[ty]
                    n &= (1 << w) - 1
                    if n >> (w - 1):
                        n -= 1 << w
                if ty == "char":
                    return ("ch", chr(n))
                return I(n)
            W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
                 "isize": 64, "u128": 128, "i128": 128, "char": 32, "bool": 8}
            if sty in W and ty in W and W[ty] >= W[sty] and (sty.startswith("u") or ty.startswith("i") == sty.startswith("i")):
                return v  # value preserving
            return op("cast_" + ty, v)
        if kind == "IntToFloat":
            if v[0] == "i":
                return F(float(v[1]))
            return op("i2f", v)
        if kind == "FloatToInt":
            if v[0] == "f" and "n" not in v[1]:
                return I(int(float(v[1])))
            if v[0] == "op" and v[1] == "i2f":
                return v[2]
            return op("f2i", v, ("ty", ty))
        return op("cast:" + kind, v, ("ty", ty))

    # ---------------------------------------------------------------- conditions
    def assume(self, st, atom, val):
        """record atom==val in st; False if contradictory"""
        if atom[0] == "b":
            return atom[1] == val
        if atom[0] == "op" and atom[1] == "not":
            return self.assume(st, atom[2], not val)
        if atom[0] == "op" and atom[1] == "and" and val:
            return all(self.assume(st, x, True) for x in atom[2:])
        if atom[0] == "op" and atom[1] == "or" and not val:
            return all(self.assume(st, x, False) for x in atom[2:])
        k = self.known(st, atom)
        if k is not None:
            return k == val
        st.pc[atom] = val
        return True

    def known(self, st, atom):
        if atom[0] == "b":
            return atom[1]
        if atom[0] == "op" and atom[1] == "not":
            k = self.known(st, atom[2])
            return None if k is None else not k
        if atom in st.pc:
            return st.pc[atom]
        if atom[0] == "op" and atom[1] in ("and", "or"):
            ks = [self.known(st, x) for x in atom[2:]]
            if atom[1] == "and":
                if False in ks:
                    return False
                if all(ks):
                    return True
            else:
                if True in ks:
                    return True
                if all(k is False for k in ks):
                    return False
        if atom[0] == "op" and atom[1] == "eq":
            # equality with two different literals of the same term
            a, b = atom[2], atom[3]
            for x, y in ((a, b), (b, a)):
                if y[0] in ("i", "s", "ch") or (y[0] == "fld" and y[1][0] == "static"):
                    for at, v in st.pc.items():
                        if v is True and at[0] == "op" and at[1] == "eq" and at != atom:
                            for p, q in ((at[2], at[3]), (at[3], at[2])):
                                # literals of one type, or two fields of one table of distinct names
                                if p == x and q[0] == y[0] and q != y and (q[0] in ("i", "s", "ch") or (q[0] == "fld" and q[1] == y[1])):
                                    return False
        return None

    def variant(self, st, v):
        """known variant name (or None) of a symbolic enum value"""
        if v[0] == "adt":
            return v[2]
        k = st.pc.get(("is", v))
        return k if isinstance(k, str) else None

    def fork_bool(self, st, atom):
        """[(state, bool)]"""
        k = self.known(st, atom)
        if k is not None:
            return [(st, k)]
        s2 = st.copy()
        r = []
        if self.assume(st, atom, True):
            r.append((st, True))
        if self.assume(s2, atom, False):
            r.append((s2, False))
        return r

    def fork_variants(self, st, v, names, payload=True):
        """split on the variant of v among names; yields (state, name)"""
        if v[0] == "ptr":
            v = self.load_ptr(st, v)
        if v[0] == "adt":
            return [(st, v[2])]
        kk = ("is", v)
        k = st.pc.get(kk)
        if isinstance(k, str):
            return [(st, k)]
        ex = k[1] if k else frozenset()
        r = []
        left = [n for n in names if n not in ex]
        for i, n in enumerate(left):
            s = st.copy() if i + 1 < len(left) else st
            r += [(c, n) for c in self.set_variant(s, v, n)]
        return r

    def payload(self, st, v, var, name="0"):
        if v[0] == "ptr":
            v = self.load_ptr(st, v)
        if v[0] == "adt":
            return v[4][v[3].index(name)]
        return self.shaped(st, ("fld", v, var, name))

    def shaped(self, st, f):
        """a list field of assumed length is a list of its elements"""
        n = st.pc.get(("shape", f))
        return f if n is None else ("arr", tuple(("idx", f, I(i)) for i in range(n)))

    def set_variant(self, st, v, name):
        """record the variant; list payloads of the variant take each of the lengths the analysis asks for"""
        st.pc[("is", v)] = name
        sts = [st]
        for fname, lens in (self.shapes(v, name) if self.shapes and isinstance(name, str) else ()):
            nx = []
            for s in sts:
                for i, n in enumerate(lens):
                    c = s.copy() if i + 1 < len(lens) else s
                    c.pc[("shape", ("fld", v, name, fname))] = n
                    nx.append(c)
            sts = nx
        return sts

    # ---------------------------------------------------------------- running
    def run(self, st, body, args, depth=0):
        """-> list of Out"""
        if depth > self.max_depth:
            raise Give("inline depth")
        if body.name in self.stack:
            raise Give("recursion " + body.name)
        self.uid += 1
        fr = self.uid
        for z in body.j.get("zfn") or ():
            st.mem[("L", fr, z[0])] = self.const(z[1])
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        self.stack.append(body.name)
        try:
            outs = self.explore(st, body, fr, 0, depth, None, frozenset())
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "ret":
                for r in [r for r in o.st.mem if r[0] == "L" and r[1] == fr and not self.escapes(o, r)]:
                    del o.st.mem[r]
            res.append(o)
        return res

    def escapes(self, o, r):
        # keep locals whose address may have escaped into the returned value (closures etc. are deep-copied)
        return self.mentions(o.val, r)

    def mentions(self, v, r):
        if v is None:
            return False
        w = [v]
        n = 0
        while w:
            x = w.pop()
            n += 1
            if n > 3000:
                return True
            if isinstance(x, tuple):
                if x == r:
                    return True
                w.extend(x)
        return False

    def explore(self, st, body, fr, start, depth, loop, active):
        """run from block `start`.  loop=(header, blockset): stop at back edges / exits.
        Returns Outs; kinds: ret, panic, back, exit(val=block)"""
        outs = []
        work = [(st, start, True)]
        loops = body.loops()
        while work:
            st, b, first = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Give("steps")
                if self.soft is not None and self.steps > self.soft and work and outs:
                    self.partial = True
                    work = []
                if loop is not None and not (first and b == start):
                    if b == loop[0]:
                        outs.append(Out(st, None, "back"))
                        break
                    if b not in loop[1]:
                        outs.append(Out(st, b, "exit"))
                        break
                if b in loops and not (loop is not None and b == loop[0]):
                    # inner loop
                    for o in self.do_loop(st, body, fr, b, depth):
                        if o.kind == "exit":
                            work.append((o.st, o.val, False))
                        else:
                            outs.append(o)
                    break
                first = False
                blk = body.blocks[b]
                try:
                    for s in blk["s"]:
                        if s[0] == "=":
                            dst = s[1]
                            v = self.rvalue(st, body, fr, s[2], dst)
                            r, p = self.place(st, fr, dst)
                            self.store(st, r, p, v)
                        elif s[0] == "dead":
                            pass
                        elif s[0] == "sd":
                            raise Give("set discriminant")
                    nxt = self.term(st, body, fr, blk["t"], depth, b)
                except Panic:
                    outs.append(Out(st, None, "panic"))
                    break
                if not nxt:
                    break
                if nxt[0] == "ret":
                    outs.append(Out(st, st.mem.get(("L", fr, 0), UNIT)))
                    break
                if nxt[0] == "panic":
                    outs.append(Out(st, None, "panic"))
                    break
                lst = nxt[1]
                if len(lst) == 1:
                    st, b = lst[0]
                    continue
                if lst and self.soft is not None and self.steps > self.soft:
                    # over the soft budget: one of the branches only
                    self.partial = True
                    st, b = self.rng.choices(lst, [self.specific(x[0]) for x in lst])[0]
                    continue
                for s2, b2 in lst[1:]:
                    work.append((s2, b2, False))
                if not lst:
                    break
                st, b = lst[0]
                if len(work) + len(outs) > self.max_outs:
                    raise Give("paths")
        if len(outs) > self.max_outs:
            raise Give("paths")
        return outs

    @staticmethod
    def specific(st):
        """weight of a branch: the ones that learn a positive fact (an equality, a variant) lead further into the code"""
        if not st.pc:
            return 1
        a = next(reversed(st.pc))
        x = st.pc[a]
        return 4 if (a[0] == "is" and isinstance(x, str) and x != "None") or (x is True and a[0] == "op" and a[1] == "eq") else 1

    def term(self, st, body, fr, t, depth, bi):
        k = t[0]
        if k == "goto":
            return ("go", [(st, t[1])])
        if k == "ret":
            return ("ret",)
        if k in ("unreachable", "resume"):
            return None
        if k == "drop":
            return ("go", [(st, t[2])])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not self.assume_soft(st, c, t[2]):
                return ("panic",)
            return ("go", [(st, t[4])])
        if k == "switch":
            return self.switch(st, body, fr, t)
        if k == "call":
            outs = self.call(st, body, fr, t, depth)
            if t[4] is None:
                return ("panic",)
            res = []
            for s, v in outs:
                r, p = self.place(s, fr, t[3])
                self.store(s, r, p, v)
                res.append((s, t[4]))
            if not res:
                if self.partial:
                    return None     # the ways on may only have been left out
                return ("panic",)
            return ("go", res)
        raise Give("terminator " + k)

    def assume_soft(self, st, c, val):
        k = self.known(st, c)
        if k is not None:
            return k == val
        return True

    def switch(self, st, body, fr, t):
        v = self.operand(st, fr, t[1])
        if v[0] == "b":
            v = I(1 if v[1] else 0)
        if v[0] == "dv":
            v = I(v[2])
        if v[0] == "ch":
            v = I(ord(v[1]))
        if v[0] == "i":
            for x, bb in t[3]:
                if x == v[1]:
                    return ("go", [(st, bb)])
            return ("go", [(st, t[4])])
        res = []
        if t[2] == "bool":
            # targets: 0 -> false branch
            for s, b in self.fork_bool(st, v):
                tgt = t[4]
                for x, bb in t[3]:
                    if x == (1 if b else 0):
                        tgt = bb
                res.append((s, tgt))
            return ("go", res)
        if v[0] == "discr":
            m = self.enum_maps[v[2]]
            kk = ("is", v[1])
            k = st.pc.get(kk)
            if isinstance(k, str):
                for x, bb in t[3]:
                    if m.get(x) == k:
                        return ("go", [(st, bb)])
                return ("go", [(st, t[4])])
            ex = k[1] if k else frozenset()
            seen = set()
            for x, bb in t[3]:
                nm = m.get(x, str(x))
                seen.add(nm)
                if nm in ex or self.is_unreach(body, bb):
                    continue
                s = st.copy()
                res += [(c, bb) for c in self.set_variant(s, v[1], nm)]
            rest = set(m.values()) - seen - ex
            if rest and not self.is_unreach(body, t[4]):
                s = st.copy()
                if len(rest) == 1:
                    res += [(c, t[4]) for c in self.set_variant(s, v[1], next(iter(rest)))]
                else:
                    s.pc[kk] = ("not", frozenset(set(m.values()) - rest))
                    res.append((s, t[4]))
            return ("go", res)
        # integer switch
        neg = st
        isch = t[2] == "char"
        for x, bb in t[3]:
            lit = ("ch", chr(x)) if isch else I(x)
            atom = mk_cmp("Eq", v, lit, not isch)
            k = self.known(neg, atom)
            if k is True:
                res.append((neg, bb))
                neg = None
                break
            if k is False:
                continue
            s = neg.copy()
            if self.assume(s, atom, True):
                res.append((s, bb))
            self.assume(neg, atom, False)
        if neg is not None and not self.is_unreach(body, t[4]):
            res.append((neg, t[4]))
        return ("go", res)

    def is_unreach(self, body, b):
        n = 0
        while n < 5:
            t = body.blocks[b]["t"]
            if t[0] == "unreachable":
                return True
            if t[0] != "goto" or body.blocks[b]["s"]:
                return False
            b = t[1]
            n += 1
        return False

    # ---------------------------------------------------------------- loops
    def widen(self, root, old, new, tag, path=()):
        if old == new or old == ("phi", tag, root, path):
            return old
        if old[0] == new[0]:
            k = old[0]
            if k == "adt" and old[1:4] == new[1:4]:
                return ("adt", old[1], old[2], old[3],
                        tuple(self.widen(root, a, b, tag, path + (i,)) for i, (a, b) in enumerate(zip(old[4], new[4]))))
            if k == "tup" and len(old[1]) == len(new[1]):
                return ("tup", tuple(self.widen(root, a, b, tag, path + (i,)) for i, (a, b) in enumerate(zip(old[1], new[1]))))
            if k == "clo" and old[1] == new[1]:
                return ("clo", old[1], tuple(self.widen(root, a, b, tag, path + (i,)) for i, (a, b) in enumerate(zip(old[2], new[2]))))
            if k == "iter" and old[1] == new[1]:
                return ("iter", old[1], ("phi", tag, root, path + ("pos",)))
            if k == "seq":
                ln = old[2] if old[2] == new[2] else ("phi", tag, root, path + ("len",))
                return ("seq", ("phi", tag, root, path + ("base",)), ln, ())
            if k == "arr" and len(old[1]) == len(new[1]):
                return ("arr", tuple(self.widen(root, a, b, tag, path + (i,)) for i, (a, b) in enumerate(zip(old[1], new[1]))))
            if k == "ptr" and old[1] == new[1] and len(old[2]) == len(new[2]):
                np = []
                okk = True
                for i, (a, b) in enumerate(zip(old[2], new[2])):
                    if a == b:
                        np.append(a)
                    elif a[0] == b[0] == "e":
                        np.append(("e", ("phi", tag, root, path + ("p", i))))
                    else:
                        okk = False
                if okk:
                    return ("ptr", old[1], tuple(np), old[3])
        if new[0] == "seq" and old[0] != "seq":
            ln = new[2] if new[2] == ("len", old) else ("phi", tag, root, path + ("len",))
            return ("seq", ("phi", tag, root, path + ("base",)), ln, ())
        return ("phi", tag, root, path)

    def do_loop(self, st0, body, fr, header, depth):
        blocks = body.loops()[header]
        tag = self.fresh("lp")
        if getattr(self, "unroll", 0):
            # loops with a concrete trip count are followed iteration by iteration
            work, done = [st0.copy()], []
            for _ in range(self.unroll + 1):
                nxt = []
                for s in work:
                    for o in self.explore(s, body, fr, header, depth, (header, blocks), frozenset()):
                        if o.kind == "back":
                            nxt.append(o.st)
                        else:
                            done.append(o)
                work = nxt
                if not work:
                    return done
                if len(work) > getattr(self, "unroll_paths", 64):
                    break
            if self.soft is not None and self.steps > self.soft:
                # a loop that only some of the branches were followed through has no summary
                self.partial = True
                return done
        inits = {}
        cur = {}
        backs = exits = others = None
        for rnd in range(8):
            st = st0.copy()
            for r, v in cur.items():
                st.mem[r] = v
            entry = st.copy()
            outs = self.explore(st, body, fr, header, depth, (header, blocks), frozenset())
            backs = [o for o in outs if o.kind == "back"]
            exits = [o for o in outs if o.kind == "exit"]
            others = [o for o in outs if o.kind not in ("back", "exit")]
            changed = False
            for o in backs:
                for r, v in o.st.mem.items():
                    if r[0] == "D" and r not in entry.mem:
                        e = r[1]
                        if self.has_phi(e):
                            continue
                    elif r not in entry.mem:
                        continue
                    else:
                        e = entry.mem[r]
                    if v != e:
                        w = self.widen(r, st0.mem.get(r, e), self.unphi(v, cur), tag) if r not in cur else None
                        if r in cur:
                            w = self.widen(r, cur[r], v, tag)
                        if cur.get(r) != w and w != e:
                            cur[r] = w
                            inits[r] = st0.mem.get(r, e)
                            changed = True
            if not changed:
                break
        else:
            raise Give("loop widening")
        if self.soft is not None and self.steps > self.soft:
            self.partial = True
            return []
        self.last_loop = (st0, cur, inits)
        for h in self.loop_hooks:
            h(self, body, header, entry, backs, exits, tag)
        # summary: value of every phi after the loop
        summ = self.summarise(tag, cur, inits, entry, backs, exits)
        res = []
        for o in exits:
            s = o.st
            s.mem = {r: self.sub_term(v, summ, tag) if self.has_tag(v, tag) else v for r, v in s.mem.items()}
            base = st0.pc
            npc = dict(base)
            for a, v in s.pc.items():
                if a in base and base[a] == v:
                    continue
                if self.is_iter_atom(a, tag):
                    continue
                npc[self.sub_term(a, summ, tag)] = v
            s.pc = npc
            s.ev = tuple(self.sub_term(e, summ, tag) for e in s.ev)
            res.append(o)
        for o in others:
            if o.kind == "ret":
                if o.val is not None:
                    o.val = self.sub_term(o.val, summ, tag)
                o.st.mem = {r: self.sub_term(v, summ, tag) if self.has_tag(v, tag) else v for r, v in o.st.mem.items()}
                o.st.pc = {self.sub_term(a, summ, tag): v for a, v in o.st.pc.items() if not self.is_iter_atom(a, tag)}
                o.st.ev = tuple(self.sub_term(e, summ, tag) for e in o.st.ev)
            res.append(o)
        return res

    def unphi(self, v, cur):
        return v

    def is_iter_atom(self, a, tag):
        return a[0] == "has" and self.has_tag(a, tag)

    def has_phi(self, v):
        return self._has(v, None)

    def has_tag(self, v, tag):
        return self._has(v, tag)

    def _has(self, v, tag):
        w = [v]
        seen = set()
        while w:
            x = w.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            if len(x) == 4 and x[0] == "phi" and (tag is None or x[1] == tag):
                return True
            w.extend(x)
        return False

    def sub_term(self, v, summ, tag, memo=None):
        if memo is None:
            memo = {}
        def go(x):
            if not isinstance(x, tuple):
                return x
            k = id(x)
            if k in memo:
                return memo[k][1]
            if len(x) == 4 and x[0] == "phi" and x[1] == tag:
                r = summ.get(x, x)
            else:
                ys = tuple(go(y) for y in x)
                r = x if ys == x else self.renorm(ys)
            memo[k] = (x, r)
            return r
        return go(v)

    def renorm(self, t):
        if t and t[0] == "lin" and len(t) == 3:
            acc = I(t[1])
            for k, c in t[2]:
                acc = iadd(acc, imul(I(c), k))
            return acc
        return t

    def summarise(self, tag, cur, inits, entry, backs, exits):
        """map phi -> ('loop', ...) canonical terms"""
        phis = {}
        for r, v in cur.items():
            self.collect_phis(v, r, inits[r], (), tag, phis)
        if getattr(self, "opaque_loops", False):
            return {ph: ("after",) + ph[1:] for ph in phis}
        # update terms per phi
        upd = {}
        for ph, (root, path, init) in phis.items():
            us = []
            for o in backs:
                nv = o.st.mem.get(root)
                us.append((self.path_conds(entry, o.st), self.get_comp(nv, path, ph)))
            upd[ph] = tuple(sorted(set(us), key=repr))
        conts = tuple(sorted({self.path_conds(entry, o.st) for o in backs}, key=repr))
        summ = {}
        for ph in phis:
            # dependency closure
            need, w = [], [ph]
            while w:
                p = w.pop()
                if p in need:
                    continue
                need.append(p)
                for q in phis:
                    if q not in need and (self.contains(upd[p], q) or self.contains(conts, q)):
                        w.append(q)
            rest = sorted([p for p in need if p != ph], key=lambda p: (repr(self.deep_strip(phis[p][2])), repr(self.mask(upd[p], phis))))
            order = [ph] + rest
            level = 1 + max([self.max_bv(x) for x in (upd[p] for p in order)] + [self.max_bv(conts)] +
                            [self.max_bv(phis[p][2]) for p in order] + [0])
            ren = {p: ("bv", level, i) for i, p in enumerate(order)}
            def sb(x):
                return self.sub_phi(x, ren)
            summ[ph] = ("loop", level, tuple(phis[p][2] if phis[p][2] is not None else ("none",) for p in order),
                        sb(conts), tuple(sb(upd[p]) for p in order))
        return summ

    def deep_strip(self, v):
        return v

    def mask(self, v, phis):
        return self.sub_phi(v, {p: ("bv", 0, 0) for p in phis})

    def sub_phi(self, v, ren):
        memo = {}
        def go(x):
            if not isinstance(x, tuple):
                return x
            k = id(x)
            if k in memo:
                return memo[k][1]
            if len(x) == 4 and x[0] == "phi" and x in ren:
                r = ren[x]
            else:
                ys = tuple(go(y) for y in x)
                r = x if ys == x else self.renorm(ys)
            memo[k] = (x, r)
            return r
        return go(v)

    def max_bv(self, v):
        m, w, seen = 0, [v], set()
        while w:
            x = w.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            if len(x) == 3 and x[0] == "bv" and isinstance(x[1], int):
                m = max(m, x[1])
            if len(x) == 5 and x[0] == "loop" and isinstance(x[1], int):
                m = max(m, x[1])
            w.extend(x)
        return m

    def contains(self, v, t):
        w, seen = [v], set()
        while w:
            x = w.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            if x == t:
                return True
            w.extend(x)
        return False

    def path_conds(self, entry, st):
        return tuple(sorted(((a, v if not isinstance(v, tuple) else ("not", tuple(sorted(v[1])))) for a, v in st.pc.items() if entry.pc.get(a) != v), key=repr))

    def collect_phis(self, v, root, init, path, tag, out):
        if not isinstance(v, tuple):
            return
        if v[0] == "phi" and v[1] == tag:
            out[v] = (root, path, init)
            return
        def comp(x, i):
            return x
        k = v[0]
        if k == "adt":
            for i, x in enumerate(v[4]):
                self.collect_phis(x, root, init[4][i] if init and init[0] == "adt" else None, path + (("a", i),), tag, out)
        elif k in ("tup", "arr"):
            for i, x in enumerate(v[1]):
                self.collect_phis(x, root, init[1][i] if init and init[0] == k and i < len(init[1]) else None, path + (("t", i),), tag, out)
        elif k == "clo":
            for i, x in enumerate(v[2]):
                self.collect_phis(x, root, init[2][i] if init and init[0] == "clo" else None, path + (("c", i),), tag, out)
        elif k == "iter":
            self.collect_phis(v[2], root, init[2] if init and init[0] == "iter" else None, path + (("it",),), tag, out)
        elif k == "seq":
            self.collect_phis(v[1], root, init, path + (("sq",),), tag, out)
            self.collect_phis(v[2], root, ("len", init) if init else None, path + (("sl",),), tag, out)
        elif k == "ptr":
            for i, p in enumerate(v[2]):
                if p[0] == "e":
                    self.collect_phis(p[1], root, init[2][i][1] if init and init[0] == "ptr" else None, path + (("pp", i),), tag, out)

    def get_comp(self, v, path, ph):
        for p in path:
            try:
                if p[0] == "a":
                    v = v[4][p[1]]
                elif p[0] == "t":
                    v = v[1][p[1]]
                elif p[0] == "c":
                    v = v[2][p[1]]
                elif p[0] == "it":
                    v = v[2]
                elif p[0] == "sq":
                    return v
                elif p[0] == "sl":
                    v = v[2] if v[0] == "seq" else ("len", v)
                elif p[0] == "pp":
                    v = v[2][p[1]][1]
            except (IndexError, TypeError):
                return ("top",)
        return v

    # ---------------------------------------------------------------- calls
    def call(self, st, body, fr, t, depth):
        """-> [(state, value)]"""
        f = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if f[0] != "k":
            fv = self.operand(st, fr, f)
            return self.apply(st, fv, args, depth)
        r = f[1].get("fnref")
        if r is None:
            return self.apply(st, self.const(f[1]), args, depth)
        argtys = [self.opty(body, a) for a in t[2]]
        return self.call_ref(st, r, args, depth, argtys, (body.name, t[5]))

    def call_ref(self, st, r, args, depth, argtys=(), site=None):
        name = r.get("res", r["fn"])
        tname = r["fn"]
        import models
        for nm in (name, tname):
            m = self.models.get(nm)
            if m is None and nm in models.TABLE and not (r.get("rlocal", r["local"]) and self.prog.get(nm)):
                m = models.TABLE[nm]
            if m is not None:
                res = m(self, st, args, r, depth, argtys)
                if res is not None:
                    return res if isinstance(res, list) else [(st, res)]
        if r.get("rkind") == "shim" and tname.startswith("std::ops::Fn") and args and args[0][0] in ("clo", "ptr", "fn"):
            return models.fn_call(self, st, args, r, depth, argtys)
        b = self.prog.get(name)
        if b and not self.opaque(name) and (self.inline is None or self.inline(name)):
            self.called.add(name)
            st2 = st.copy()
            s_steps = self.steps
            try:
                outs = self.run(st2, b, args, depth + 1)
                return [(o.st, self.fix_ret(o)) for o in outs if o.kind == "ret"]
            except Give as e:
                if not str(e).startswith("recursion") and not str(e).startswith("inline depth"):
                    raise
        return self.uninterp(st, name, args, r)

    def fix_ret(self, o):
        return o.val if o.val is not None else UNIT

    def uninterp(self, st, name, args, r):
        if not self.prog.get(name):
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        vals = tuple(self.deep(st, a) for a in args)
        tkey = ()
        v = ("app", name) + vals
        for i, a in enumerate(args):
            self.havoc_mut(st, a, ("app", f"out{i}:{name}") + vals)
        return [(st, v)]

    def havoc_mut(self, st, a, nv, d=0):
        if a[0] == "ptr" and a[3]:
            st.ev = st.ev + (("mut", nv),)
            self.store(st, a[1], a[2], nv)
        elif a[0] in ("clo",) and d < 3:
            for x in a[2]:
                self.havoc_mut(st, x, nv, d + 1)
        elif a[0] in ("tup",) and d < 3:
            for x in a[1]:
                self.havoc_mut(st, x, nv, d + 1)

    def apply(self, st, fv, args, depth):
        """call a function value"""
        import models
        if fv[0] == "ptr":
            fv2 = self.load_ptr(st, fv)
            if fv2[0] in ("clo", "fn"):
                if fv2[0] == "clo":
                    return self.call_closure(st, fv2, args, depth, self_ptr=fv)
                fv = fv2
            else:
                fv = fv2
        if fv[0] == "clo":
            return self.call_closure(st, fv, args, depth)
        if fv[0] == "fn":
            return self.call_ref(st, {"fn": fv[3], "res": fv[1], "targs": list(fv[2]), "local": fv[1] in self.prog.bodies,
                                      "rlocal": fv[1] in self.prog.bodies}, args, depth)
        return self.uninterp(st, "call", [fv] + list(args), None)

    def call_closure(self, st, clo, args, depth, self_ptr=None):
        b = self.prog.get(clo[1])
        if b is None:
            return self.uninterp(st, clo[1], args, None)
        st = st.copy()
        selfty = b.locals[1]
        if selfty.startswith("&"):
            if self_ptr is None:
                root = ("H", self.fresh("clo"))
                st.mem[root] = clo
                sv = ("ptr", root, (), True)
            else:
                sv = self_ptr
        else:
            sv = clo
        # closure bodies take (self, args...) with untupled args
        outs = self.run(st, b, [sv] + list(args), depth + 1)
        return [(o.st, self.fix_ret(o)) for o in outs if o.kind == "ret"]

    # lambda abstraction of a function value: decision tree over fresh bound variables
    def lam(self, st, fv, n, depth, tag="x"):
        lvl = 1 + self.max_bv(self.deep(st, fv)) if fv[0] != "fn" else 1
        args = [("bv", 1000 + lvl, i) for i in range(n)]
        s = st.copy()
        s.pc = dict(st.pc)
        outs = self.apply(s, fv, args, depth)
        base = st.pc
        tree = []
        for o, v in outs:
            conds = tuple(sorted(((a, x if not isinstance(x, tuple) else ("not", tuple(sorted(x[1])))) for a, x in o.pc.items() if base.get(a) != x), key=repr))
            tree.append((conds, self.deep(o, v)))
        return ("lam", lvl, n, tuple(sorted(tree, key=repr)))
