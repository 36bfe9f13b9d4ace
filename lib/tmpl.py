"""Expression templates: expressions of known top-level shape whose children are opaque, and their valuations."""
import itertools
from sx import *
import den
from den import Val, Und, Unk, mpf, EXPR, close, strip_id

EK = "core::expr::ExprKind"
POLY = "core::poly::Polynomial"


def V(n):
    return ("var", n)


def kind(k, *vals, names=None):
    return ("adt", EK, k, names or tuple(str(i) for i in range(len(vals))), vals)


def expr(k, *vals, names=None, tag=""):
    """an Expr of the given kind; identity and hashes are opaque"""
    return ("adt", EXPR, "Expr", ("id", "hash", "term_hash", "kind"),
            (V("id" + tag), V("hash" + tag), V("thash" + tag), kind(k, *vals, names=names)))


def arr(*xs):
    return ("arr", tuple(xs))


class Profile:
    """what a valuation says about an opaque child expression"""

    def __init__(self, nm, val, kind, d=None, dform="gen", contains=False, ident=None):
        self.nm, self.val, self.kind = nm, None if val is None else mpf(val), kind
        self.d = None if d is None else mpf(d)
        self.dform, self.contains, self.ident = dform, contains, ident

    def __repr__(self):
        return self.nm


def num(v):
    return Profile(str(v), v, "Number", 0, "zero", False)


def leaf_of(t):
    """('var', x) of a term that denotes (a field of) an opaque child"""
    while t[0] == "fld":
        t = t[1]
    return t if t[0] == "var" else None


class TVal(Val):
    """valuation of the children of a template"""

    def __init__(self, names, prof, env=None, hooks=None):
        e = dict(env or {})
        for l, p in prof.items():
            e[l] = p.val
            if p.kind == "Number":
                e[("fld", ("fld", l, "", "kind"), "Number", "0")] = p.val
            if p.d is not None:
                e[("app", "D", l)] = p.d
                # a differentiation that does not know the registered functions
                e[("app", "D0", l)] = p.d if p.kind != "FunctionCall" or p.dform != "gen" else p.d + 1
        super().__init__(names, e, hooks=hooks)
        self.prof = prof

    # structural facts
    def num_of(self, t):
        """the literal value of an expression term when it is a literal, None when it is not one"""
        if t in self.prof:
            p = self.prof[t]
            return p.val if p.kind == "Number" else None
        if t[0] == "app" and t[1] in ("D", "D0") and t[2] in self.prof:
            p = self.prof[t[2]]
            return mpf(0) if p.dform == "zero" else mpf(1) if p.dform == "one" else None
        if t[0] == "app" and t[1] == "E:number":
            return self.f(t[2])
        if t[0] == "adt" and t[1] == EXPR:
            t = den.fld_of(t, "kind")
        if t[0] == "adt" and t[1].endswith("ExprKind"):
            return self.f(t[4][0]) if t[2] == "Number" else None
        if t[0] == "app" and t[1] in ("E:func_symbol", "E:func_multi_from_arcs_symbol", "E:func_symbol_arc", "E:derivative", "E:derivative_interned"):
            return None
        if t[0] == "app" and t[1].startswith("E:"):
            # a constructor may or may not fold its operands to a literal
            v = self.e(t)
            raise Unk("folded literal") if v in (0, 1, -1) else Unk("literal?")
        raise Unk(f"literal {t[:2]}")

    def kind_of(self, t):
        """variant name of a kind term"""
        if t[0] == "adt":
            return t[2]
        if t[0] == "fld" and t[-1] == "kind":
            x = t[1]
            if x in self.prof:
                return self.prof[x].kind
            if x[0] == "adt":
                return den.fld_of(x, "kind")[2]
            if x[0] == "app" and x[1] == "E:number":
                return "Number"
        raise Unk(f"kind {t[:2]}")

    def cond(self, t):
        if t[0] == "app" and t[1] in ("is_zero_num", "is_one_num", "is_neg_one_num"):
            want = {"is_zero_num": 0, "is_one_num": 1, "is_neg_one_num": -1}[t[1]]
            try:
                n = self.num_of(t[2])
            except Unk as u:
                if str(u) in ("literal?",):
                    return False
                if str(u) == "folded literal" and self.e(t[2]) != want:
                    return False
                raise
            return n is not None and n == want
        if t[0] == "app" and t[1] == "contains_var" and t[2] in self.prof:
            return self.prof[t[2]].contains
        if t[0] == "op" and t[1] == "eq" and any(x[0] == "adt" and x[2] in ("Some", "None") for x in t[2:]):
            a, b = [self.option(x) for x in t[2:]]
            return a == b
        h = self.hooks.get("cond")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        return super().cond(t)

    def option(self, t):
        """value of an Option<f64> term"""
        if t[0] == "adt":
            return self.f(t[4][0]) if t[2] == "Some" else None
        if t[0] == "app" and t[1] == "as_number":
            return self.num_of(t[2])
        raise Unk("option")

    def pc_holds(self, pc):
        """does this valuation follow the path? (Unk: cannot tell)"""
        unk = None
        for a, x in pc.items():
            try:
                if a[0] == "is":
                    v = self.variant_of(a[1])
                    if isinstance(x, str):
                        if v != x:
                            return False
                    elif v in x[1]:
                        return False
                    continue
                try:
                    r = self.cond(a)
                except Und:
                    r = False
                if r != x:
                    return False
            except Unk as u:
                unk = unk or u
        if unk:
            raise unk
        return True

    def variant_of(self, t):
        h = self.hooks.get("variant")
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if t[0] == "app" and t[1] == "as_number":
            return "None" if self.num_of(t[2]) is None else "Some"
        return self.kind_of(t)

    def _f(self, t):
        if t[0] == "fld" and t[2] == "Some" and t[1][0] == "app" and t[1][1] == "as_number":
            n = self.num_of(t[1][2])
            if n is None:
                raise Und()
            return n
        return super()._f(t)


def valuations(leaves, profiles, limit=600):
    """every combination of profiles for the children (thinned evenly to the limit)"""
    n = len(profiles) ** len(leaves)
    step = max(1, -(-n // limit))
    if step > 1 and step % len(profiles) == 0:
        step += 1
    for i, c in enumerate(itertools.product(profiles, repeat=len(leaves))):
        if i % step == 0:
            yield dict(zip(leaves, c))
