"""Semantics of the std / num_traits / wide primitives the analysed code calls, as term constructors.
A model returns a value, a list of (state, value), or None (not applicable)."""
from sx import *

TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def v0(I_, st, a):
    """value behind (erased) references"""
    n = 0
    while a[0] == "ptr" and n < 6:
        a = I_.load(st, a[1], a[2])
        n += 1
    return a


# ---- identity-like ---------------------------------------------------------------------------
@model("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::sync::LazyLock<T, F> as std::ops::Deref>::deref",
       "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::string::String as std::ops::Deref>::deref",
       "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref", "std::convert::AsRef::as_ref",
       "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref", "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref",
       "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
       "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "<std::boxed::Box<T, A> as std::ops::Deref>::deref",
       "std::vec::Vec::as_slice", "<std::string::String as std::convert::AsRef<str>>::as_ref", "std::string::String::as_str",
       "std::vec::Vec::as_mut_slice", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
       "<std::sync::RwLockReadGuard<'_, T> as std::ops::Deref>::deref", "<std::sync::RwLockWriteGuard<'_, T> as std::ops::Deref>::deref",
       "<std::sync::RwLockWriteGuard<'_, T> as std::ops::DerefMut>::deref_mut", "<std::sync::MutexGuard<'_, T> as std::ops::Deref>::deref",
       "<std::sync::MutexGuard<'_, T> as std::ops::DerefMut>::deref_mut", "std::borrow::Borrow::borrow",
       "<std::cell::Ref<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut",
       "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref", "std::iter::IntoIterator::into_iter_", "std::hint::must_use",
       "std::sync::Arc::new", "std::boxed::Box::new", "std::rc::Rc::new", "std::convert::identity", "std::hint::black_box",
       "<T as std::convert::From<T>>::from", "std::vec::Vec::into_boxed_slice",
       "<std::sync::Arc<T> as std::convert::From<T>>::from", "std::option::Option::as_deref", "std::option::Option::as_ref",
       "std::option::Option::as_mut", "std::option::Option::as_deref_mut", "std::iter::Iterator::by_ref",
       "std::mem::MaybeUninit::assume_init", "<[T]>::into_vec_", "std::sync::Arc::unwrap_or_clone_", "<&mut I as std::iter::IntoIterator>::into_iter",
       "std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::Cell::as_ptr", "std::result::Result::as_ref",
       "std::string::String::into_boxed_str", "std::sync::Arc::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
def m_id(I_, st, args, r, d, tys):
    return args[0]


@model("<std::sync::Arc<T, A> as std::clone::Clone>::clone", "std::clone::Clone::clone", "<std::vec::Vec<T, A> as std::clone::Clone>::clone",
       "<std::string::String as std::clone::Clone>::clone", "std::option::Option::copied", "std::option::Option::cloned",
       "<std::option::Option<T> as std::clone::Clone>::clone", "<[T]>::to_vec", "<str as std::borrow::ToOwned>::to_owned",
       "<T as std::borrow::ToOwned>::to_owned", "<std::boxed::Box<T, A> as std::clone::Clone>::clone",
       "<std::boxed::Box<[T], A> as std::clone::Clone>::clone", "<std::borrow::Cow<'_, B> as std::clone::Clone>::clone",
       "std::borrow::Cow::into_owned", "<std::sync::Arc<str> as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&str>>::from",
       "std::sync::Arc::unwrap_or_clone", "<[T] as std::borrow::ToOwned>::to_owned", "<f64 as std::clone::Clone>::clone",
       "<str>::to_string", "<std::sync::Arc<T> as std::convert::From<std::boxed::Box<T>>>::from", "<[T]>::into_vec",
       "<&T as std::clone::Clone>::clone", "std::slice::SliceIndex::index_", "<std::ops::Range<Idx> as std::clone::Clone>::clone",
       "<std::ops::RangeInclusive<Idx> as std::clone::Clone>::clone", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from")
def m_clone(I_, st, args, r, d, tys):
    return I_.deep(st, args[0])


@model("std::convert::Into::into", "<T as std::convert::Into<U>>::into", "std::convert::From::from")
def m_into(I_, st, args, r, d, tys):
    t = r.get("targs", [])
    src, dst = (t + [None, None])[:2]
    if r["fn"].endswith("From::from"):
        src, dst = dst, src
    if src == dst and src is not None:
        return args[0]
    if src and dst:
        # resolve  <dst as From<src>>::from  in the crate
        nm = f"<{dst} as std::convert::From<{src}>>::from"
        b = I_.prog.get(nm)
        if b is None:
            for k in I_.prog.bodies:
                if k.startswith("<" + dst + " as ") and k.endswith("From<" + src + ">>::from"):
                    b = I_.prog.get(k)
                    nm = k
                    break
        if b is not None:
            return I_.call_ref(st, {"fn": nm, "local": True, "targs": []}, args, d)
        if dst in ("f64",) and src in INT_TYS:
            return I_.cast(st, "IntToFloat", args[0], "f64", src)
        if dst in INT_TYS and src in INT_TYS:
            return I_.cast(st, "IntToInt", args[0], dst, src)
        if dst in ("std::string::String", "std::sync::Arc<str>", "std::boxed::Box<str>") or dst.startswith("std::sync::Arc<") or dst.startswith("std::boxed::Box<"):
            return I_.deep(st, args[0])
    return None


for ity in ("i32", "u32", "i16", "u16", "u8", "i8"):
    def mk(ity):
        def f(I_, st, args, r, d, tys):
            return I_.cast(st, "IntToFloat", args[0], "f64", ity)
        return f
    TABLE[f"<f64 as std::convert::From<{ity}>>::from"] = mk(ity)


# ---- float arithmetic ------------------------------------------------------------------------
F64UN = {"sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "sinh": "sinh", "cosh": "cosh",
         "tanh": "tanh", "asinh": "asinh", "acosh": "acosh", "atanh": "atanh", "exp": "exp", "exp_m1": "expm1", "ln": "ln",
         "ln_1p": "log1p", "sqrt": "sqrt", "cbrt": "cbrt", "abs": "abs", "signum": "signum", "floor": "floor", "ceil": "ceil",
         "round": "round", "trunc": "trunc", "fract": "fract", "recip": "recip", "log10": "log10", "log2": "log2", "exp2": "exp2",
         "to_degrees": "to_degrees", "to_radians": "to_radians"}
F64BIN = {"powf": "pow", "powi": "powi", "atan2": "atan2", "log": "log", "max": "fmax", "min": "fmin", "hypot": "hypot",
          "rem_euclid": "rem_euclid", "copysign": "copysign", "abs_sub": "abs_sub", "div_euclid": "div_euclid"}


def mkun(nm):
    def f(I_, st, args, r, d, tys):
        x = I_.deep(st, args[0])
        if nm == "recip":
            return op("div", F(1), x)
        if nm == "abs" and x[0] == "f":
            return F(abs(float(x[1])))
        return op(nm, x)
    return f


def mkbin(nm):
    def f(I_, st, args, r, d, tys):
        a, b = I_.deep(st, args[0]), I_.deep(st, args[1])
        if nm == "powi":
            return op("pow", a, I_.cast(st, "IntToFloat", b, "f64", "i32"))
        return op(nm, a, b)
    return f


for k, v in F64UN.items():
    for pre in ("<f64>::", "num_traits::Float::", "num_traits::real::Real::"):
        TABLE[pre + k] = mkun(v)
    TABLE[f"<f64 as num_traits::Float>::{k}"] = mkun(v)
for k, v in F64BIN.items():
    for pre in ("<f64>::", "num_traits::Float::"):
        TABLE[pre + k] = mkbin(v)
    TABLE[f"<f64 as num_traits::Float>::{k}"] = mkbin(v)


@model("<f64>::mul_add", "num_traits::Float::mul_add", "<f64 as num_traits::Float>::mul_add")
def m_fma(I_, st, args, r, d, tys):
    a, b, c = (I_.deep(st, x) for x in args)
    return op("add", op("mul", a, b), c)


@model("<f64>::sin_cos", "num_traits::Float::sin_cos")
def m_sincos(I_, st, args, r, d, tys):
    x = I_.deep(st, args[0])
    return ("tup", (op("sin", x), op("cos", x)))


for nm in ("is_nan", "is_infinite", "is_finite", "is_sign_negative", "is_sign_positive"):
    def mkp(nm):
        def f(I_, st, args, r, d, tys):
            x = I_.deep(st, args[0])
            if x[0] == "f":
                v = float(x[1])
                if nm == "is_nan":
                    return B(v != v)
                if nm == "is_infinite":
                    return B(v in (float("inf"), float("-inf")))
            return op(nm, x)
        return f
    for pre in ("<f64>::", "num_traits::Float::"):
        TABLE[pre + nm] = mkp(nm)

CONSTS = {"PI": "pi", "E": "e", "LN_2": "ln2", "LN_10": "ln10", "FRAC_PI_2": "pi/2", "FRAC_PI_3": "pi/3", "FRAC_PI_4": "pi/4",
          "FRAC_PI_6": "pi/6", "FRAC_PI_8": "pi/8", "FRAC_1_PI": "1/pi", "FRAC_2_PI": "2/pi", "FRAC_2_SQRT_PI": "2/sqrt(pi)",
          "SQRT_2": "sqrt2", "FRAC_1_SQRT_2": "1/sqrt2", "LOG10_E": "log10e", "LOG2_E": "log2e", "TAU": "tau"}
import math
CVAL = {"PI": math.pi, "E": math.e, "LN_2": math.log(2), "LN_10": math.log(10), "FRAC_PI_2": math.pi / 2, "FRAC_PI_3": math.pi / 3,
        "FRAC_PI_4": math.pi / 4, "FRAC_PI_6": math.pi / 6, "FRAC_PI_8": math.pi / 8, "FRAC_1_PI": 1 / math.pi,
        "FRAC_2_PI": 2 / math.pi, "FRAC_2_SQRT_PI": 2 / math.sqrt(math.pi), "SQRT_2": math.sqrt(2),
        "FRAC_1_SQRT_2": 1 / math.sqrt(2), "LOG10_E": math.log10(math.e), "LOG2_E": math.log2(math.e), "TAU": 2 * math.pi}
for k, v in CVAL.items():
    def mkc(v):
        return lambda I_, st, args, r, d, tys: F(v)
    TABLE["num_traits::FloatConst::" + k] = mkc(v)
    TABLE[f"<f64 as num_traits::FloatConst>::{k}"] = mkc(v)
TABLE["num_traits::One::one"] = lambda I_, st, a, r, d, t: F(1)
TABLE["num_traits::Zero::zero"] = lambda I_, st, a, r, d, t: F(0)
TABLE["num_traits::Float::nan"] = lambda I_, st, a, r, d, t: F("nan")
TABLE["num_traits::Float::epsilon"] = lambda I_, st, a, r, d, t: F("2.220446049250313e-16")
TABLE["num_traits::Float::max_value"] = lambda I_, st, a, r, d, t: F("1.7976931348623157e308")
TABLE["num_traits::Float::infinity"] = lambda I_, st, a, r, d, t: F("inf")
TABLE["num_traits::Float::neg_infinity"] = lambda I_, st, a, r, d, t: F("-inf")
TABLE["num_traits::Zero::is_zero"] = lambda I_, st, a, r, d, t: mk_cmp("Eq", I_.deep(st, a[0]), F(0))
TABLE["num_traits::One::is_one"] = lambda I_, st, a, r, d, t: mk_cmp("Eq", I_.deep(st, a[0]), F(1))


@model("num_traits::FromPrimitive::from_f64")
def m_fromf64(I_, st, args, r, d, tys):
    return some(I_.deep(st, args[0]))


@model("num_traits::FromPrimitive::from_i32", "num_traits::FromPrimitive::from_usize", "num_traits::FromPrimitive::from_u32",
       "num_traits::FromPrimitive::from_i64", "num_traits::FromPrimitive::from_u64")
def m_fromi(I_, st, args, r, d, tys):
    return some(I_.cast(st, "IntToFloat", I_.deep(st, args[0]), "f64", None))


@model("num_traits::NumCast::from", "num_traits::cast::cast", "num_traits::cast")
def m_numcast(I_, st, args, r, d, tys):
    t = r.get("targs", [])
    src = t[1] if len(t) > 1 else None
    v = I_.deep(st, args[0])
    if src in INT_TYS:
        return some(I_.cast(st, "IntToFloat", v, "f64", src))
    return some(v)


@model("num_traits::ToPrimitive::to_f64")
def m_tof64(I_, st, args, r, d, tys):
    return some(I_.deep(st, args[0]))


@model("num_traits::ToPrimitive::to_i32", "num_traits::ToPrimitive::to_i64", "num_traits::ToPrimitive::to_usize")
def m_toint(I_, st, args, r, d, tys):
    v = I_.deep(st, args[0])
    return ("app", r["fn"], v)


ARITH = {"Add::add": "add", "Sub::sub": "sub", "Mul::mul": "mul", "Div::div": "div", "Rem::rem": "rem"}


def is_num_ty(t):
    return t is not None and (t.lstrip("&") in ("f64", "f32", "T", "wide::f64x4", "f64x4") or t.lstrip("&'a ") in ("f64",))


def arith(nm):
    def f(I_, st, args, r, d, tys):
        fn = r.get("res", r["fn"])
        targs = r.get("targs", [])
        if r.get("rlocal"):
            return None
        if any(x and ("Expr" in x or "Symbol" in x) for x in targs):
            return None
        a, b = I_.deep(st, args[0]), I_.deep(st, args[1])
        if any(x.replace("&", "").strip() in INT_TYS for x in targs):
            return I_.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[nm], a, b, "usize")
        return vlift(I_, nm, a, b)
    return f


def vlift(I_, nm, *xs):
    if any(x[0] == "v4" for x in xs):
        ls = [lanes(x) for x in xs]
        return ("v4", tuple(op(nm, *(l[i] for l in ls)) for i in range(4)))
    return op(nm, *xs)


def lanes(v):
    if v[0] == "v4":
        return v[1]
    return tuple(("lane", v, i) for i in range(4))


def reg_arith():
    for tr, nm in ARITH.items():
        TABLE["std::ops::" + tr] = arith(nm)
        for a in ("f64", "&f64", "&'a f64"):
            for b in ("f64", "&f64"):
                TABLE[f"<{a} as std::ops::{tr.split('::')[0]}<{b}>>::{tr.split('::')[1]}"] = arith(nm)
        t, m = tr.split("::")
        TABLE[f"<f64 as std::ops::{t}>::{m}"] = arith(nm)
        TABLE[f"<wide::f64x4 as std::ops::{t}>::{m}"] = lambda I_, st, args, r, d, tys, nm=nm: ("v4", tuple(
            op(nm, x, y) for x, y in zip(lanes(I_.deep(st, args[0])), lanes(I_.deep(st, args[1])))))
        for pre in ("wide::f64x4",):
            pass

        def asg(nm, wide=False):
            def f(I_, st, args, r, d, tys):
                if r.get("rlocal"):
                    return None
                targs = r.get("targs", [])
                if any("Expr" in x or "Symbol" in x for x in targs):
                    return None
                p = args[0]
                if p[0] != "ptr":
                    raise Give("op_assign")
                cur = I_.deep(st, p)
                rhs = I_.deep(st, args[1])
                if any(x.replace("&", "").strip() in INT_TYS for x in targs):
                    v = I_.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[nm], cur, rhs, "usize")
                elif wide or "f64x4" in r.get("res", r["fn"]) or any("f64x4" in x for x in targs):
                    v = ("v4", tuple(op(nm, x, y) for x, y in zip(lanes(cur), lanes(rhs))))
                else:
                    v = op(nm, cur, rhs)
                I_.store(st, p[1], p[2], v)
                return UNIT
            return f
        TABLE[f"std::ops::{t}Assign::{m}_assign"] = asg(nm)
        TABLE[f"<f64 as std::ops::{t}Assign<&f64>>::{m}_assign"] = asg(nm)
        TABLE[f"<f64 as std::ops::{t}Assign>::{m}_assign"] = asg(nm)
        TABLE[f"<wide::f64x4 as std::ops::{t}Assign>::{m}_assign"] = asg(nm, True)
        TABLE[f"<wide::f64x4 as std::ops::{t}Assign<&wide::f64x4>>::{m}_assign"] = asg(nm, True)


reg_arith()


@model("std::ops::Neg::neg", "<f64 as std::ops::Neg>::neg", "<&f64 as std::ops::Neg>::neg")
def m_neg(I_, st, args, r, d, tys):
    if r.get("rlocal"):
        return None
    if any("Expr" in x for x in r.get("targs", [])):
        return None
    x = I_.deep(st, args[0])
    if x[0] == "f":
        return F(-float(x[1]))
    return op("neg", x)


# wide
@model("wide::f64x4::new")
def m_v4new(I_, st, args, r, d, tys):
    a = I_.deep(st, args[0])
    if a[0] == "arr" and len(a[1]) == 4:
        return ("v4", a[1])
    if a[0] == "seq":
        return ("v4", tuple(I_.index(st, a, I(i)) for i in range(4)))
    if a[0] == "rep":
        return ("v4", (a[1],) * 4)
    return ("v4", tuple(I_.index(st, a, I(i)) for i in range(4)))


@model("wide::f64x4::splat")
def m_splat(I_, st, args, r, d, tys):
    return ("v4", (I_.deep(st, args[0]),) * 4)


@model("wide::f64x4::to_array", "wide::f64x4::as_array_ref", "wide::f64x4::as_array")
def m_toarr(I_, st, args, r, d, tys):
    return ("arr", lanes(I_.deep(st, args[0])))


WUN = {"sqrt": "sqrt", "exp": "exp", "ln": "ln", "abs": "abs", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos",
       "atan": "atan", "floor": "floor", "ceil": "ceil", "round": "round", "round_ties_even": "rint", "trunc": "trunc", "log2": "log2", "log10": "log10", "recip": "recip"}
for k, v in WUN.items():
    def mkw(v):
        def f(I_, st, args, r, d, tys):
            l = lanes(I_.deep(st, args[0]))
            return ("v4", tuple(op(v, x) for x in l))
        return f
    TABLE["wide::f64x4::" + k] = mkw(v)


@model("wide::f64x4::mul_add")
def m_wfma(I_, st, args, r, d, tys):
    a, b, c = (lanes(I_.deep(st, x)) for x in args)
    return ("v4", tuple(op("add", op("mul", x, y), z) for x, y, z in zip(a, b, c)))


@model("wide::f64x4::mul_sub")
def m_wfms(I_, st, args, r, d, tys):
    a, b, c = (lanes(I_.deep(st, x)) for x in args)
    return ("v4", tuple(op("sub", op("mul", x, y), z) for x, y, z in zip(a, b, c)))


@model("wide::f64x4::mul_neg_add")
def m_wfnma(I_, st, args, r, d, tys):
    a, b, c = (lanes(I_.deep(st, x)) for x in args)
    return ("v4", tuple(op("sub", z, op("mul", x, y)) for x, y, z in zip(a, b, c)))


for k, v in {"pow_f64x4": "pow", "powf_simd": "pow", "max": "fmax", "min": "fmin", "fast_max": "fmax", "fast_min": "fmin"}.items():
    def mkwb(v):
        def f(I_, st, args, r, d, tys):
            a, b = (lanes(I_.deep(st, x)) for x in args)
            return ("v4", tuple(op(v, x, y) for x, y in zip(a, b)))
        return f
    TABLE["wide::f64x4::" + k] = mkwb(v)


@model("wide::f64x4::powf")
def m_wpowf(I_, st, args, r, d, tys):
    a = lanes(I_.deep(st, args[0]))
    b = I_.deep(st, args[1])
    return ("v4", tuple(op("pow", x, b) for x in a))


@model("<wide::f64x4 as std::ops::Neg>::neg", "<&wide::f64x4 as std::ops::Neg>::neg")
def m_wneg(I_, st, args, r, d, tys):
    return ("v4", tuple(op("neg", x) for x in lanes(I_.deep(st, args[0]))))


# ---- comparisons -------------------------------------------------------------------------------
def cmpm(o):
    def f(I_, st, args, r, d, tys):
        nm = r.get("res", r["fn"])
        if r.get("rlocal") and I_.prog.get(nm) and not I_.opaque(nm):
            return None
        a, b = I_.deep(st, args[0]), I_.deep(st, args[1])
        isint = any(x.replace("&", "").strip() in INT_TYS for x in r.get("targs", []))
        return mk_cmp(o, a, b, isint)
    return f


for tr, ms in (("PartialEq", {"eq": "Eq", "ne": "Ne"}), ("PartialOrd", {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"})):
    for m, o in ms.items():
        TABLE[f"std::cmp::{tr}::{m}"] = cmpm(o)
        for t in ("str", "&A", "std::string::String", "f64", "[T]", "std::vec::Vec<T, A>", "std::option::Option<T>", "std::sync::Arc<T, A>",
                  "std::sync::Arc<T>", "char", "(U, T)", "slotmap::DefaultKey", "usize", "u64", "u32", "i32", "bool", "std::borrow::Cow<'a, B>",
                  "std::cmp::Ordering", "std::ops::RangeInclusive<Idx>"):
            for q in ("", "<&B>", "<str>", "<std::string::String>", "<&str>", "<&'b B>", "<[U]>", "<&[U; N]>"):
                TABLE[f"<{t} as std::cmp::{tr}{q}>::{m}"] = cmpm(o)


@model("<str>::is_empty", "std::string::String::is_empty", "std::vec::Vec::is_empty", "<[T]>::is_empty", "std::collections::HashMap::is_empty",
       "std::collections::HashSet::is_empty", "std::collections::VecDeque::is_empty")
def m_isempty(I_, st, args, r, d, tys):
    return mk_cmp("Eq", I_.length(st, v0(I_, st, args[0])), I(0), True)


@model("std::vec::Vec::len", "<[T]>::len", "<str>::len", "std::string::String::len", "std::collections::HashMap::len", "std::collections::HashSet::len",
       "std::iter::ExactSizeIterator::len", "std::collections::VecDeque::len")
def m_len(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    if v[0] == "iter":
        return iter_len(I_, st, v)
    return I_.length(st, v)


# ---- pointers / vec ---------------------------------------------------------------------------
@model("<*mut T>::add", "<*const T>::add", "<*mut T>::wrapping_add", "<*const T>::wrapping_add", "<*mut T>::offset", "<*const T>::offset")
def m_padd(I_, st, args, r, d, tys):
    return I_.ptr_add(args[0], args[1])


@model("<*mut T>::sub", "<*const T>::sub")
def m_psub(I_, st, args, r, d, tys):
    return I_.ptr_add(args[0], args[1], -1)


@model("<*mut T>::cast", "<*const T>::cast", "<*const T>::cast_mut", "<*mut T>::cast_const", "std::ptr::from_mut", "std::ptr::from_ref")
def m_pcast(I_, st, args, r, d, tys):
    p = args[0]
    return p


def elem_ptr(p):
    if p[0] == "ptr" and p[2] and p[2][-1][0] == "e":
        return p
    return p


@model("<*mut T>::read", "<*const T>::read", "std::ptr::read", "<*mut T>::read_unaligned", "<*const T>::read_unaligned")
def m_pread(I_, st, args, r, d, tys):
    return I_.load_ptr(st, args[0])


@model("<*mut T>::write", "std::ptr::write", "<*mut T>::write_unaligned")
def m_pwrite(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        raise Give("write through opaque ptr")
    I_.store(st, p[1], p[2], args[1])
    return UNIT


@model("std::ptr::swap", "std::mem::swap")
def m_swap(I_, st, args, r, d, tys):
    p, q = args
    if p[0] != "ptr" or q[0] != "ptr":
        raise Give("swap")
    a, b = I_.load(st, p[1], p[2]), I_.load(st, q[1], q[2])
    I_.store(st, p[1], p[2], b)
    I_.store(st, q[1], q[2], a)
    return UNIT


@model("std::mem::replace", "std::ptr::replace")
def m_replace(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        raise Give("replace")
    a = I_.load(st, p[1], p[2])
    I_.store(st, p[1], p[2], args[1])
    return a


@model("std::mem::take", "std::option::Option::take")
def m_take(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        return None
    a = I_.load(st, p[1], p[2])
    t = (r.get("targs") or [""])[0]
    if r["fn"].endswith("Option::take"):
        nv = NONE
    elif "Vec<" in t:
        nv = ("arr", ())
    else:
        nv = ("app", "default", ("s", t))
    I_.store(st, p[1], p[2], nv)
    return a


@model("<[T]>::as_mut_ptr", "<[T]>::as_ptr", "std::vec::Vec::as_mut_ptr", "std::vec::Vec::as_ptr", "<[T; N]>::as_mut_ptr")
def m_asptr(I_, st, args, r, d, tys):
    p = args[0]
    while p[0] == "ptr":
        v = I_.load(st, p[1], p[2])
        if v[0] != "ptr":
            return ("ptr", p[1], p[2] + (("e", I(0)),), p[3])
        p = v
    root = ("D", p)
    return ("ptr", root, (("e", I(0)),), True)


def idx_ptr(I_, st, base, i, mut):
    p = base
    while p[0] == "ptr":
        v = I_.load(st, p[1], p[2])
        if v[0] != "ptr":
            break
        p = v
    if p[0] == "ptr":
        return ("ptr", p[1], p[2] + (("e", i),), mut)
    return ("ptr", ("D", p), (("e", i),), mut) if mut else I_.index(st, p, i)


def is_range(i):
    return i[0] in ("adt", "zst") and isinstance(i[1], str) and ("Range" in i[1])


@model("<[T]>::get_unchecked", "<[T]>::get_unchecked_mut", "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<[T] as std::ops::Index<I>>::index",
       "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "<[T] as std::ops::IndexMut<I>>::index_mut", "std::ops::Index::index",
       "<[T; N] as std::ops::Index<I>>::index")
def m_index(I_, st, args, r, d, tys):
    i = I_.deep(st, args[1])
    mut = "mut" in r.get("res", r["fn"])
    if is_range(i):
        if mut:
            p = args[0]
            while p[0] == "ptr":
                t = I_.load(st, p[1], p[2])
                if t[0] != "ptr":
                    break
                p = t
            if p[0] == "ptr":
                sl = subslice(I_, st, I_.load(st, p[1], p[2]), i)
                if sl[0] == "op" and sl[1] == "subslice":
                    return ("ptr", p[1], p[2] + (("sub", sl[3], sl[4]),), True)
        return subslice(I_, st, v0(I_, st, args[0]), i)
    base = args[0]
    b = v0(I_, st, base)
    if i[0] not in ("i", "lin") and any(("HashMap" in x or "SlotMap" in x) for x in r.get("targs", [])):
        return ("app", "map_index", I_.deep(st, base), i)
    return idx_ptr(I_, st, base, i, mut)


def subslice(I_, st, v, rg):
    v = I_.deep(st, v)
    n = I_.length(st, v)
    nm = rg[1].split("::")[-1]
    if nm == "RangeFull":
        return v
    f = dict(zip(rg[3], rg[4]))
    lo = f.get("start", I(0))
    hi = f.get("end", n)
    if nm in ("RangeInclusive", "RangeToInclusive"):
        hi = iadd(f.get("end", f.get("last")), I(1))
    if v[0] == "arr" and lo[0] == "i" and hi[0] == "i":
        return ("arr", v[1][lo[1]:hi[1]])
    if v[0] == "s" and lo[0] == "i" and hi[0] == "i":
        return ("s", v[1][lo[1]:hi[1]])
    return ("op", "subslice", v, lo, hi)


@model("<str as std::ops::Index<I>>::index", "<std::string::String as std::ops::Index<I>>::index")
def m_stridx(I_, st, args, r, d, tys):
    i = I_.deep(st, args[1])
    if is_range(i):
        return subslice(I_, st, v0(I_, st, args[0]), i)
    return None


@model("<[T]>::get", "<[T]>::get_mut")
def m_get(I_, st, args, r, d, tys):
    i = I_.deep(st, args[1])
    v = v0(I_, st, args[0])
    if is_range(i):
        return None
    c = mk_cmp("Lt", i, I_.length(st, v), True)
    res = []
    for s, b in I_.fork_bool(st, c):
        res.append((s, some(idx_ptr(I_, s, args[0], i, "mut" in r["fn"])) if b else NONE))
    return res


@model("<[T]>::first", "<[T]>::last", "<[T]>::first_mut", "<[T]>::last_mut")
def m_first(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    n = I_.length(st, v)
    last = "last" in r["fn"]
    c = mk_cmp("Eq", n, I(0), True)
    res = []
    for s, b in I_.fork_bool(st, c):
        res.append((s, NONE if b else some(idx_ptr(I_, s, args[0], iadd(n, I(-1)) if last else I(0), "mut" in r["fn"]))))
    return res


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def m_vnew(I_, st, args, r, d, tys):
    return ("arr", ())


@model("std::string::String::new", "std::string::String::with_capacity")
def m_snew(I_, st, args, r, d, tys):
    return ("s", "")


def vec_push(I_, st, v, x):
    if v[0] == "arr":
        return ("arr", v[1] + (x,))
    n = I_.length(st, v)
    if v[0] == "seq":
        w = I_.proj_store(st, v, (("e", n),), x)
        return ("seq", w[1], iadd(n, I(1)), w[3])
    return ("seq", v, iadd(n, I(1)), ((n, x),))


@model("std::vec::Vec::push")
def m_push(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        raise Give("push on opaque")
    v = I_.load(st, p[1], p[2])
    while v[0] == "ptr":
        p = v
        v = I_.load(st, p[1], p[2])
    x = args[1]
    I_.store(st, p[1], p[2], vec_push(I_, st, v, x))
    return UNIT


@model("std::vec::Vec::pop")
def m_pop(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        raise Give("pop")
    v = I_.load(st, p[1], p[2])
    n = I_.length(st, v)
    res = []
    for s, b in I_.fork_bool(st, mk_cmp("Eq", n, I(0), True)):
        if b:
            res.append((s, NONE))
        else:
            last = iadd(n, I(-1))
            x = I_.index(s, v, last)
            if v[0] == "arr":
                nv = ("arr", v[1][:-1])
            elif v[0] == "seq":
                nv = ("seq", v[1], last, tuple((i, w) for i, w in v[3] if iconst_diff(i, last) != 0))
            else:
                nv = ("seq", v, last, ())
            I_.store(s, p[1], p[2], nv)
            res.append((s, some(x)))
    return res


@model("std::vec::Vec::clear", "std::collections::HashMap::clear")
def m_clear(I_, st, args, r, d, tys):
    p = args[0]
    I_.store(st, p[1], p[2], ("arr", ()) if "Vec" in r["fn"] else ("app", "emptymap"))
    return UNIT


@model("std::vec::Vec::set_len")
def m_setlen(I_, st, args, r, d, tys):
    p = args[0]
    v = I_.load(st, p[1], p[2])
    n = args[1]
    if v[0] == "seq":
        nv = ("seq", v[1], n, v[3])
    elif v[0] == "arr" and n[0] == "i" and n[1] <= len(v[1]):
        nv = ("arr", v[1][:n[1]])
    elif v[0] == "arr" and not v[1]:
        nv = ("seq", ("var", "uninit"), n, ())
    else:
        nv = ("seq", v, n, ())
    I_.store(st, p[1], p[2], nv)
    return UNIT


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::vec::Vec::shrink_to_fit", "std::mem::drop", "std::mem::forget", "std::string::String::reserve",
       "std::collections::HashMap::reserve")
def m_nop(I_, st, args, r, d, tys):
    return UNIT


@model("std::vec::from_elem")
def m_fromelem(I_, st, args, r, d, tys):
    n = args[1]
    if n[0] == "i" and n[1] <= 8:
        return ("arr", (args[0],) * n[1])
    return ("rep", I_.deep(st, args[0]), n)


@model("std::boxed::Box::new_uninit")
def m_newun(I_, st, args, r, d, tys):
    root = ("H", I_.fresh("box"))
    st.mem[root] = ("var", "undef:box")
    return ("ptr", root, (), True)


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init")
def m_intovec(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    while v[0] == "with" and len(v[2]) == 1 and v[1][0] == "var":
        v = v[2][0][1]
    return v


@model("std::mem::MaybeUninit::uninit")
def m_uninit(I_, st, args, r, d, tys):
    return ("var", "undef:uninit")


@model("std::sync::Arc::ptr_eq", "std::ptr::eq", "std::ptr::addr_eq", "std::rc::Rc::ptr_eq")
def m_ptreq(I_, st, args, r, d, tys):
    a, b = I_.deep(st, args[0]), I_.deep(st, args[1])
    return ("op", "ptr_eq") + tuple(sorted((a, b), key=repr))


@model("std::sync::Arc::try_unwrap")
def m_trywrap(I_, st, args, r, d, tys):
    v = I_.deep(st, args[0])
    return ok(v)   # either branch yields the same value for the caller (value semantics)


# ---- Option / Result -----------------------------------------------------------------------------
def fork_opt(I_, st, v):
    v = v0(I_, st, v)
    out = []
    for s, n in I_.fork_variants(st, v, ("Some", "None")):
        out.append((s, I_.payload(s, v, "Some") if n == "Some" else None))
    return out


def fork_res(I_, st, v):
    v = v0(I_, st, v)
    out = []
    for s, n in I_.fork_variants(st, v, ("Ok", "Err")):
        out.append((s, n, I_.payload(s, v, n)))
    return out


@model("<std::option::Option<T> as std::ops::Try>::branch")
def m_obranch(I_, st, args, r, d, tys):
    return [(s, adt("std::ops::ControlFlow", "Continue", ("0",), (p,)) if p is not None else
             adt("std::ops::ControlFlow", "Break", ("0",), (NONE,))) for s, p in fork_opt(I_, st, args[0])]


@model("<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual")
def m_ores(I_, st, args, r, d, tys):
    return NONE


@model("<std::result::Result<T, E> as std::ops::Try>::branch")
def m_rbranch(I_, st, args, r, d, tys):
    return [(s, adt("std::ops::ControlFlow", "Continue", ("0",), (p,)) if n == "Ok" else
             adt("std::ops::ControlFlow", "Break", ("0",), (err(p),))) for s, n, p in fork_res(I_, st, args[0])]


@model("<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual")
def m_rres(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    p = I_.payload(st, v, "Err")
    t = r.get("targs", [])
    return err(p)


@model("std::option::Option::expect", "std::option::Option::unwrap", "std::option::Option::unwrap_unchecked")
def m_ounwrap(I_, st, args, r, d, tys):
    return [(s, p) for s, p in fork_opt(I_, st, args[0]) if p is not None]


@model("std::result::Result::expect", "std::result::Result::unwrap")
def m_runwrap(I_, st, args, r, d, tys):
    return [(s, p) for s, n, p in fork_res(I_, st, args[0]) if n == "Ok"]


@model("std::option::Option::unwrap_or", )
def m_unwrapor(I_, st, args, r, d, tys):
    return [(s, p if p is not None else args[1]) for s, p in fork_opt(I_, st, args[0])]


@model("std::result::Result::unwrap_or")
def m_runwrapor(I_, st, args, r, d, tys):
    return [(s, p if n == "Ok" else args[1]) for s, n, p in fork_res(I_, st, args[0])]


def app1(I_, st, f, args, d):
    return I_.apply(st, f, args, d)


@model("std::option::Option::unwrap_or_else")
def m_unwrapelse(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, p)] if p is not None else app1(I_, s, args[1], [], d)
    return out


@model("std::result::Result::unwrap_or_else")
def m_runwrapelse(I_, st, args, r, d, tys):
    out = []
    for s, n, p in fork_res(I_, st, args[0]):
        out += [(s, p)] if n == "Ok" else app1(I_, s, args[1], [p], d)
    return out


@model("std::option::Option::map")
def m_omap(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(x, some(v)) for x, v in app1(I_, s, args[1], [p], d)]
    return out


@model("std::option::Option::and_then")
def m_oandthen(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, NONE)] if p is None else app1(I_, s, args[1], [p], d)
    return out


@model("std::option::Option::or_else")
def m_oorelse(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, some(p))] if p is not None else app1(I_, s, args[1], [], d)
    return out


@model("std::option::Option::or")
def m_oor(I_, st, args, r, d, tys):
    return [(s, some(p) if p is not None else args[1]) for s, p in fork_opt(I_, st, args[0])]


@model("std::option::Option::filter")
def m_ofilter(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            for x, c in app1(I_, s, args[1], [p], d):
                for y, b in I_.fork_bool(x, c):
                    out.append((y, some(p) if b else NONE))
    return out


@model("std::option::Option::map_or")
def m_omapor(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, args[1])] if p is None else app1(I_, s, args[2], [p], d)
    return out


@model("std::option::Option::map_or_else")
def m_omaporelse(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += app1(I_, s, args[1], [], d) if p is None else app1(I_, s, args[2], [p], d)
    return out


@model("std::option::Option::is_some_and", "std::option::Option::is_none_or")
def m_issomeand(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, B(r["fn"].endswith("none_or")))] if p is None else app1(I_, s, args[1], [p], d)
    return out


@model("std::option::Option::is_some", "std::option::Option::is_none")
def m_issome(I_, st, args, r, d, tys):
    w = r["fn"].endswith("is_some")
    return [(s, B((p is not None) == w)) for s, p in fork_opt(I_, st, args[0])]


@model("std::result::Result::is_ok", "std::result::Result::is_err")
def m_isok(I_, st, args, r, d, tys):
    w = r["fn"].endswith("is_ok")
    return [(s, B((n == "Ok") == w)) for s, n, p in fork_res(I_, st, args[0])]


@model("std::option::Option::ok_or")
def m_okor(I_, st, args, r, d, tys):
    return [(s, ok(p) if p is not None else err(args[1])) for s, p in fork_opt(I_, st, args[0])]


@model("std::option::Option::ok_or_else")
def m_okorelse(I_, st, args, r, d, tys):
    out = []
    for s, p in fork_opt(I_, st, args[0]):
        out += [(s, ok(p))] if p is not None else [(x, err(v)) for x, v in app1(I_, s, args[1], [], d)]
    return out


@model("std::result::Result::ok")
def m_rok(I_, st, args, r, d, tys):
    return [(s, some(p) if n == "Ok" else NONE) for s, n, p in fork_res(I_, st, args[0])]


@model("std::result::Result::map")
def m_rmap(I_, st, args, r, d, tys):
    out = []
    for s, n, p in fork_res(I_, st, args[0]):
        out += [(s, err(p))] if n == "Err" else [(x, ok(v)) for x, v in app1(I_, s, args[1], [p], d)]
    return out


@model("std::result::Result::map_err")
def m_rmaperr(I_, st, args, r, d, tys):
    out = []
    for s, n, p in fork_res(I_, st, args[0]):
        out += [(s, ok(p))] if n == "Ok" else [(x, err(v)) for x, v in app1(I_, s, args[1], [p], d)]
    return out


@model("std::result::Result::and_then")
def m_randthen(I_, st, args, r, d, tys):
    out = []
    for s, n, p in fork_res(I_, st, args[0]):
        out += [(s, err(p))] if n == "Err" else app1(I_, s, args[1], [p], d)
    return out


@model("std::result::Result::unwrap_or_default_", "std::option::Option::unwrap_or_default")
def m_unwrapdef(I_, st, args, r, d, tys):
    t = (r.get("targs") or [""])[0]
    dv = {"f64": F(0), "bool": FALSE, "usize": I(0), "i32": I(0), "u32": I(0), "u64": I(0)}.get(t)
    if dv is None:
        return None
    return [(s, p if p is not None else dv) for s, p in fork_opt(I_, st, args[0])]


# ---- closures ----------------------------------------------------------------------------------
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def fn_call(I_, st, args, r, d, tys):
    tup = v0(I_, st, args[1]) if len(args) > 1 else UNIT
    a = list(tup[1]) if tup[0] == "tup" else [tup]
    return I_.apply(st, args[0], a, d)


@model("std::sync::LazyLock::force")
def m_force(I_, st, args, r, d, tys):
    return args[0]


# ---- iterators -----------------------------------------------------------------------------------
def mk_iter(I_, st, v, by=None):
    """iterator over the (possibly pointed to) value v"""
    if v[0] == "iter":
        return v
    if v[0] == "ptr":
        p = v
        t = I_.load(st, p[1], p[2])
        while t[0] == "ptr":
            p = t
            t = I_.load(st, p[1], p[2])
        if t[0] == "iter":
            return t
        if t[0] == "adt" and "Range" in t[1]:
            v = t
        else:
            return ("iter", ("slice", p), I(0))
    if v[0] == "adt" and v[1].endswith("ops::Range"):
        lo, hi = v[4]
        return ("iter", ("range", lo, iadd(hi, lo, -1)), I(0))
    if v[0] == "adt" and v[1].endswith("RangeInclusive"):
        lo, hi = v[4][:2]
        return ("iter", ("range", lo, iadd(iadd(hi, I(1)), lo, -1)), I(0))
    if v[0] == "adt" and v[1].endswith("RangeFrom"):
        return ("iter", ("range", v[4][0], ("inf",)), I(0))
    if v[0] == "adt" and v[1].endswith("Option"):
        return ("iter", ("slice", ("arr", v[4])), I(0))
    return ("iter", ("slice", v), I(0))


@model("<I as std::iter::IntoIterator>::into_iter")
def m_into_iter_id(I_, st, args, r, d, tys):
    v = args[0]
    if v[0] == "adt" and "Range" in v[1]:
        return mk_iter(I_, st, v)
    return v


@model("std::ops::RangeInclusive::new")
def m_ri(I_, st, args, r, d, tys):
    return ("adt", "std::ops::RangeInclusive", "RangeInclusive", ("start", "end", "exhausted"), (args[0], args[1], FALSE))


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains")
def m_rcontains(I_, st, args, r, d, tys):
    v = I_.deep(st, args[0])
    x = I_.deep(st, args[1])
    if v[0] != "adt":
        return None
    isint = any(t.replace("&", "") in INT_TYS for t in r.get("targs", []))
    a = mk_cmp("Le", v[4][0], x, isint)
    b = mk_cmp("Le" if "Inclusive" in v[1] else "Lt", x, v[4][1], isint)
    out = []
    for s, p in I_.fork_bool(st, a):
        if not p:
            out.append((s, FALSE))
        else:
            out += [(q, B(w)) for q, w in I_.fork_bool(s, b)]
    return out


@model("<[T]>::iter", "<[T]>::iter_mut", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a [T] as std::iter::IntoIterator>::into_iter",
       "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a [T; N] as std::iter::IntoIterator>::into_iter", "<[T; N] as std::iter::IntoIterator>::into_iter",
       "<&'a mut [T] as std::iter::IntoIterator>::into_iter",
       "std::iter::IntoIterator::into_iter", "std::option::Option::iter", "std::option::Option::into_iter",
       "<std::option::Option<T> as std::iter::IntoIterator>::into_iter", "<std::boxed::Box<[I], A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::boxed::Box<[I], A> as std::iter::IntoIterator>::into_iter", "std::vec::Vec::drain_")
def m_iter(I_, st, args, r, d, tys):
    return mk_iter(I_, st, args[0])


@model("<str>::chars", "<str>::bytes", "<str>::char_indices", "std::collections::HashMap::iter", "std::collections::HashMap::keys", "std::collections::HashMap::values",
       "std::collections::HashSet::iter", "<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter", "std::collections::HashMap::iter_mut",
       "std::collections::HashMap::values_mut", "std::collections::HashMap::into_values", "<[T]>::windows", "<[T]>::chunks", "<[T]>::chunks_exact",
       "<[T]>::chunks_mut", "<[T]>::chunks_exact_mut", "<str>::split", "<str>::lines", "std::vec::Vec::drain",
       "<std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter", "std::collections::HashSet::difference", "slotmap::SlotMap::iter",
       "slotmap::SlotMap::values")
def m_opqiter(I_, st, args, r, d, tys):
    return ("iter", ("opq", r["fn"].split("::")[-1]) + tuple(I_.deep(st, a) for a in args), I(0))


def src_iter(I_, st, a):
    v = v0(I_, st, a)
    if v[0] == "iter":
        return v
    return mk_iter(I_, st, a)


def shift(it):
    """sequence description of the remaining elements"""
    if it[2] == I(0):
        return it[1]
    return ("skip", it[1], it[2])


def wrap(kind):
    def f(I_, st, args, r, d, tys):
        it = src_iter(I_, st, args[0])
        dsc = shift(it)
        if kind == "enum":
            return ("iter", ("enum", dsc), I(0))
        if kind in ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "scan", "inspect", "map_while"):
            return ("iter", (kind, dsc) + tuple(args[1:]), I(0))
        if kind in ("zip", "chain"):
            o = src_iter(I_, st, args[1])
            return ("iter", (kind, dsc, shift(o)), I(0))
        if kind in ("skip", "take", "step_by"):
            return ("iter", (kind, dsc, args[1]), I(0))
        if kind in ("cloned", "copied", "peekable", "fuse"):
            return ("iter", dsc, I(0))
        return ("iter", (kind, dsc), I(0))
    return f


for k, nm in {"enumerate": "enum", "map": "map", "filter": "filter", "filter_map": "filter_map", "zip": "zip", "chain": "chain", "skip": "skip",
              "take": "take", "rev": "rev", "cloned": "cloned", "copied": "copied", "peekable": "peekable", "flat_map": "flat_map", "step_by": "step_by",
              "take_while": "take_while", "skip_while": "skip_while", "fuse": "fuse", "flatten": "flatten", "inspect": "inspect"}.items():
    TABLE["std::iter::Iterator::" + k] = wrap(nm)


def seq_len(I_, st, s):
    k = s[0]
    if k == "slice":
        return I_.length(st, v0(I_, st, s[1]))
    if k == "range":
        return s[2]
    if k in ("enum", "map", "rev"):
        return seq_len(I_, st, s[1])
    if k == "skip":
        n = seq_len(I_, st, s[1])
        if n == ("inf",):
            return n
        return iadd(n, s[2], -1)
    if k == "zip":
        a, b = seq_len(I_, st, s[1]), seq_len(I_, st, s[2])
        if a == ("inf",):
            return b
        if b == ("inf",):
            return a
        if a == b:
            return a
        return ("op", "min") + tuple(sorted((a, b), key=repr))
    return ("seqlen", desc_deep(I_, st, s))


def desc_deep(I_, st, s):
    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "ptr" and len(x) == 4:
            return I_.deep(st, x)
        if x and x[0] == "clo":
            return ("clo", x[1], tuple(I_.deep(st, y) for y in x[2]))
        return tuple(go(y) for y in x)
    return go(s)


def iter_len(I_, st, it):
    n = seq_len(I_, st, it[1])
    return n if n == ("inf",) else iadd(n, it[2], -1)


def elem(I_, st, s, i, d):
    """[(state, element)] of sequence description s at index i"""
    k = s[0]
    if k == "slice":
        v = s[1]
        if v[0] == "ptr":
            return [(st, ("ptr", v[1], v[2] + (("e", i),), v[3]))]
        return [(st, I_.index(st, v, i))]
    if k == "range":
        return [(st, iadd(s[1], i))]
    if k == "enum":
        return [(x, ("tup", (i, e))) for x, e in elem(I_, st, s[1], i, d)]
    if k == "skip":
        return elem(I_, st, s[1], iadd(i, s[2]), d)
    if k == "take":
        return elem(I_, st, s[1], i, d)
    if k == "rev":
        n = seq_len(I_, st, s[1])
        return elem(I_, st, s[1], iadd(iadd(n, I(-1)), i, -1), d)
    if k == "zip":
        out = []
        for x, a in elem(I_, st, s[1], i, d):
            out += [(y, ("tup", (a, b))) for y, b in elem(I_, x, s[2], i, d)]
        return out
    if k == "map":
        out = []
        for x, a in elem(I_, st, s[1], i, d):
            out += I_.apply(x, s[2], [a], d)
        return out
    return [(st, ("elem", desc_deep(I_, st, s), i))]


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
       "<std::iter::Enumerate<I> as std::iter::Iterator>::next", "<std::ops::Range<A> as std::iter::Iterator>::next",
       "<std::ops::RangeInclusive<A> as std::iter::Iterator>::next", "<std::iter::Skip<I> as std::iter::Iterator>::next",
       "<std::iter::Rev<I> as std::iter::Iterator>::next", "<std::iter::Zip<A, B> as std::iter::Iterator>::next",
       "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "std::iter::Iterator::next",
       "<std::iter::Peekable<I> as std::iter::Iterator>::next", "<std::iter::Map<I, F> as std::iter::Iterator>::next",
       "<std::iter::Filter<I, P> as std::iter::Iterator>::next", "<std::iter::Take<I> as std::iter::Iterator>::next",
       "<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::iter::Chain<A, B> as std::iter::Iterator>::next",
       "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next",
       "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::slice::Windows<'a, T> as std::iter::Iterator>::next",
       "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next", "<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::next",
       "<std::collections::hash_set::Iter<'a, K> as std::iter::Iterator>::next", "<std::iter::StepBy<I> as std::iter::Iterator>::next",
       "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next", "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next",
       "<std::collections::hash_map::Keys<'a, K, V> as std::iter::Iterator>::next", "<std::collections::hash_map::Values<'a, K, V> as std::iter::Iterator>::next",
       "<std::iter::FilterMap<B, I, F> as std::iter::Iterator>::next", "<std::iter::FlatMap<I, U, F> as std::iter::Iterator>::next",
       "<std::option::IntoIter<A> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def m_next(I_, st, args, r, d, tys):
    p = args[0]
    while p[0] == "ptr":
        v = I_.load(st, p[1], p[2])
        if v[0] != "ptr":
            break
        p = v
    if p[0] != "ptr":
        return None
    if v[0] == "adt" and "Range" in v[1]:
        v = mk_iter(I_, st, v)
    if v[0] != "iter":
        v = ("iter", ("opq", "iter", v), I(0))
    if v[1][0] in ("filter", "filter_map", "flat_map", "chain", "flatten", "take_while", "skip_while", "map_while", "take", "step_by") and v[2] == I(0):
        c = concrete(I_, st, v, d)
        if c is not None:
            out = []
            for s, l in c:
                out.append((s, some(l[0]) if l else NONE))
                I_.store(s, p[1], p[2], ("iter", ("slice", ("arr", tuple(l))), I(1)))
            return out
    n = seq_len(I_, st, v[1])
    pos = v[2]
    out = []
    if n == ("inf",):
        forks = [(st, True)]
    elif n[0] == "i" and pos[0] == "i":
        forks = [(st, pos[1] < n[1])]
    else:
        atom = ("has", n, pos)
        forks = I_.fork_bool(st, atom)
    for s, b in forks:
        if not b:
            out.append((s, NONE))
            continue
        I_.store(s, p[1], p[2], ("iter", v[1], iadd(pos, I(1))))
        out += [(x, some(e)) for x, e in elem(I_, s, v[1], pos, d)]
    return out


@model("std::iter::Peekable::peek")
def m_peek(I_, st, args, r, d, tys):
    p = args[0]
    v = v0(I_, st, p)
    if v[0] != "iter":
        return None
    n = seq_len(I_, st, v[1])
    out = []
    atom = ("has", n, v[2]) if not (n[0] == "i" and v[2][0] == "i") else B(v[2][1] < n[1])
    for s, b in I_.fork_bool(st, atom):
        if not b:
            out.append((s, NONE))
        else:
            out += [(x, some(e)) for x, e in elem(I_, s, v[1], v[2], d)]
    return out


CMAX = 12


def expand(I_, st, s, d):
    """[(state, [elements])] when the sequence description has finitely many, individually known elements; else None"""
    k = s[0]
    if k in ("slice", "range"):
        n = seq_len(I_, st, s)
        if n[0] != "i" or n[1] > CMAX:
            return None
        res = [(st, [])]
        for i in range(max(0, n[1])):
            res = [(x, l + [e]) for q, l in res for x, e in elem(I_, q, s, I(i), d)]
        return res
    if k in ("enum", "rev", "skip", "take", "step_by", "flatten", "map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "map_while", "inspect"):
        base = expand(I_, st, s[1], d)
        if base is None:
            return None
    elif k in ("zip", "chain"):
        base = expand(I_, st, s[1], d)
        if base is None:
            return None
        out = []
        for q, l in base:
            o = expand(I_, q, s[2], d)
            if o is None:
                return None
            out += [(x, l + m if k == "chain" else [("tup", p) for p in zip(l, m)]) for x, m in o]
        return out
    else:
        return None
    if k == "enum":
        return [(q, [("tup", (I(i), e)) for i, e in enumerate(l)]) for q, l in base]
    if k == "rev":
        return [(q, l[::-1]) for q, l in base]
    if k in ("skip", "take", "step_by"):
        n = v0(I_, st, s[2])
        if n[0] != "i":
            return None
        return [(q, l[n[1]:] if k == "skip" else l[:n[1]] if k == "take" else l[::n[1] or 1]) for q, l in base]
    if k == "flatten":
        out = []
        for q, l in base:
            res = [(q, [])]
            for e in l:
                nx = []
                for x, acc in res:
                    m = expand_value(I_, x, e, d)
                    if m is None:
                        return None
                    nx += [(y, acc + mm) for y, mm in m]
                res = nx
            out += res
        return out
    out = []
    for q, l in base:
        res = [(q, [], False)]
        for e in l:
            nx = []
            for x, acc, stop in res:
                if stop and k != "skip_while":
                    nx.append((x, acc, True))
                    continue
                if stop:
                    nx.append((x, acc + [e], True))
                    continue
                if k in ("filter", "take_while", "skip_while"):
                    root = ("H", I_.fresh("el"))
                    x.mem[root] = e
                    for y, v in I_.apply(x, s[2], [("ptr", root, (), False)], d):
                        for z, b in I_.fork_bool(y, v):
                            if k == "filter":
                                nx.append((z, acc + [e] if b else acc, False))
                            elif k == "take_while":
                                nx.append((z, acc + [e] if b else acc, not b))
                            else:
                                nx.append((z, acc if b else acc + [e], not b))
                elif k == "inspect":
                    nx.append((x, acc + [e], False))
                else:
                    for y, v in I_.apply(x, s[2], [e], d):
                        if k == "map":
                            nx.append((y, acc + [v], False))
                        elif k == "flat_map":
                            m = expand_value(I_, y, v, d)
                            if m is None:
                                return None
                            nx += [(z, acc + mm, False) for z, mm in m]
                        else:
                            for z, o in fork_opt(I_, y, v):
                                nx.append((z, acc + [o] if o is not None else acc, o is None and k == "map_while"))
            res = nx
            if len(res) > 600:
                return None
        out += [(x, acc) for x, acc, _ in res]
    return out


def expand_value(I_, st, v, d):
    """elements of an iterable value (vector, option, iterator)"""
    w = v0(I_, st, v)
    if w[0] == "adt" and w[2] in ("Some", "None"):
        return [(st, list(w[4]))]
    it = src_iter(I_, st, v)
    if it is None or it[0] != "iter" or it[2][0] != "i":
        return None
    r = expand(I_, st, it[1], d)
    return None if r is None else [(x, l[it[2][1]:]) for x, l in r]


def concrete(I_, st, it, d):
    """list of element terms when the sequence has individually known elements"""
    if it[2][0] != "i":
        return None
    n = seq_len(I_, st, it[1])
    if n == ("inf",):
        return None
    probe = st.copy()
    r = expand(I_, probe, it[1], d)
    return None if r is None else [(x, l[it[2][1]:]) for x, l in r]


def hof(kind):
    def f(I_, st, args, r, d, tys):
        it = src_iter(I_, st, args[0])
        c = None
        try:
            c = concrete(I_, st, it, d)
        except Give:
            c = None
        if c is not None:
            return conc_hof(I_, kind, c, args, d, r)
        seq = shift(it)
        lams = []
        n = {"fold": 2, "try_fold": 2}.get(kind, 1)
        rest = []
        for a in args[1:]:
            v = v0(I_, st, a)
            if v[0] in ("clo", "fn"):
                lams.append(lam_or_top(I_, st, a, n, d))
            else:
                rest.append(I_.deep(st, a))
        return ("hof", kind, seq_term(I_, st, seq, d), tuple(rest), tuple(lams))
    return f


def lam_or_top(I_, st, a, n, d):
    v = v0(I_, st, a)
    try:
        return I_.lam(st, a, n, d)
    except Give:
        return ("opaque_lam", v[1]) + tuple(I_.deep(st, x) for x in (v[2] if v[0] == "clo" else ()))


def seq_term(I_, st, s, d):
    """pure term for a sequence description (closures replaced by lambda terms)"""
    k = s[0]
    if k == "slice":
        return I_.deep(st, s[1])
    if k in ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "scan", "inspect", "map_while"):
        inner = seq_term(I_, st, s[1], d)
        return (k, inner) + tuple(lam_or_top(I_, st, a, 1, d) for a in s[2:])
    if k in ("enum", "rev", "flatten"):
        return (k, seq_term(I_, st, s[1], d))
    if k in ("zip", "chain"):
        return (k, seq_term(I_, st, s[1], d), seq_term(I_, st, s[2], d))
    if k in ("skip", "take", "step_by"):
        return (k, seq_term(I_, st, s[1], d), I_.deep(st, s[2]))
    return desc_deep(I_, st, s)


def conc_hof(I_, kind, c, args, d, r):
    out = []
    for s, l in c:
        if kind == "collect":
            t = r.get("targs", ["", ""])
            tgt = t[1] if len(t) > 1 else ""
            if tgt.startswith("std::vec::Vec") or "Box<[" in tgt or "Arc<[" in tgt:
                out.append((s, ("arr", tuple(l))))
            else:
                out.append((s, ("hof", "collect", ("arr", tuple(I_.deep(s, x) for x in l)), (("s", tgt),), ())))
            continue
        if kind in ("any", "all"):
            st_l = [(s, None)]
            for e in l:
                nx = []
                for q, done in st_l:
                    if done is not None:
                        nx.append((q, done))
                        continue
                    for x, v in I_.apply(q, args[1], [e], d):
                        for y, b in I_.fork_bool(x, v):
                            nx.append((y, B(b) if b == (kind == "any") else None))
                st_l = nx
            out += [(q, dn if dn is not None else B(kind == "all")) for q, dn in st_l]
            continue
        if kind == "fold":
            st_l = [(s, args[1])]
            for e in l:
                nx = []
                for q, acc in st_l:
                    nx += I_.apply(q, args[2], [acc, e], d)
                st_l = nx
            out += st_l
            continue
        if kind in ("sum", "product"):
            acc = F(0) if kind == "sum" else F(1)
            for e in l:
                acc = op("add" if kind == "sum" else "mul", acc, I_.deep(s, e))
            out.append((s, acc))
            continue
        if kind == "count":
            out.append((s, I(len(l))))
            continue
        if kind in ("find", "position", "find_map", "rposition"):
            st_l = [(s, None)]
            order = list(enumerate(l))
            for i, e in (order[::-1] if kind == "rposition" else order):
                nx = []
                for q, done in st_l:
                    if done is not None:
                        nx.append((q, done))
                        continue
                    a = e
                    if kind == "find":
                        root = ("H", I_.fresh("el"))
                        q.mem[root] = e
                        a = ("ptr", root, (), False)
                    for x, v in I_.apply(q, args[1], [a], d):
                        if kind == "find_map":
                            nx += [(y, some(o) if o is not None else None) for y, o in fork_opt(I_, x, v)]
                        else:
                            nx += [(y, (some(e) if kind == "find" else some(I(i))) if b else None) for y, b in I_.fork_bool(x, v)]
                st_l = nx
            out += [(q, dn if dn is not None else NONE) for q, dn in st_l]
            continue
        if kind == "partition":
            st_l = [(s, [], [])]
            for e in l:
                nx = []
                for q, ta, fa in st_l:
                    root = ("H", I_.fresh("el"))
                    q.mem[root] = e
                    for x, v in I_.apply(q, args[1], [("ptr", root, (), False)], d):
                        nx += [(y, ta + [e], fa) if b else (y, ta, fa + [e]) for y, b in I_.fork_bool(x, v)]
                st_l = nx
            out += [(q, ("tup", (("arr", tuple(ta)), ("arr", tuple(fa))))) for q, ta, fa in st_l]
            continue
        if kind == "last":
            out.append((s, some(l[-1]) if l else NONE))
            continue
        if kind == "for_each":
            st_l = [s]
            for e in l:
                st_l = [x for q in st_l for x, _ in I_.apply(q, args[1], [e], d)]
            out += [(q, UNIT) for q in st_l]
            continue
        lams = []
        rest = []
        for a in args[1:]:
            v = v0(I_, s, a)
            if v[0] in ("clo", "fn"):
                lams.append(lam_or_top(I_, s, a, 2 if kind in ("max_by", "min_by", "reduce") else 1, d))
            else:
                rest.append(I_.deep(s, a))
        out.append((s, ("hof", kind, ("arr", tuple(I_.deep(s, x) for x in l)), tuple(rest), tuple(lams))))
    return out


HOFS = ("collect", "any", "all", "fold", "sum", "product", "count", "for_each", "find", "position", "max", "min", "max_by", "min_by",
        "reduce", "try_fold", "find_map", "last", "nth", "try_for_each", "unzip", "partition", "max_by_key", "min_by_key", "eq")
for k in HOFS:
    TABLE["std::iter::Iterator::" + k] = hof(k)
    for t in ("std::slice::Iter<'a, T>", "std::iter::Filter<I, P>", "std::iter::Enumerate<I>", "std::vec::IntoIter<T, A>", "std::ops::Range<A>",
              "std::iter::Map<B, I, F>", "std::iter::Map<I, F>", "std::iter::Zip<A, B>", "std::iter::Rev<I>", "std::iter::Skip<I>", "std::iter::Copied<I>",
              "std::iter::Cloned<I>", "std::str::Chars<'a>", "std::iter::Chain<A, B>", "std::slice::IterMut<'a, T>"):
        TABLE[f"<{t} as std::iter::Iterator>::{k}"] = hof(k)


@model("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "std::vec::Vec::extend_from_slice")
def m_extend(I_, st, args, r, d, tys):
    p = args[0]
    if p[0] != "ptr":
        raise Give("extend")
    it = src_iter(I_, st, args[1])
    v = I_.load(st, p[1], p[2])
    c = concrete(I_, st, it, d)
    if c is not None:
        out = []
        for s, l in c:
            w = I_.load(s, p[1], p[2])
            for e in l:
                w = vec_push(I_, s, w, e)
            I_.store(s, p[1], p[2], w)
            out.append((s, UNIT))
        return out
    t = seq_term(I_, st, shift(it), d)
    base = I_.deep(st, v)
    n = iter_len(I_, st, it)
    ln = iadd(I_.length(st, base), n) if n != ("inf",) else ("seqlen", t)
    I_.store(st, p[1], p[2], ("seq", ("op", "concat", base, t), ln, ()))
    return UNIT


# ---- misc ---------------------------------------------------------------------------------------
@model("<usize>::saturating_sub", "<u32>::saturating_sub", "<u64>::saturating_sub")
def m_satsub(I_, st, args, r, d, tys):
    a, b = args
    dd = iconst_diff(a, b)
    if dd is not None:
        if a[0] == "i":
            return I(max(0, dd))
    return ("op", "satsub", a, b)


@model("<usize>::saturating_add", "<u32>::saturating_add", "<usize>::wrapping_add", "<u64>::wrapping_add")
def m_satadd(I_, st, args, r, d, tys):
    return iadd(args[0], args[1])


@model("<usize>::wrapping_sub", "<usize>::checked_sub_")
def m_wsub(I_, st, args, r, d, tys):
    return iadd(args[0], args[1], -1)


@model("<usize as std::cmp::Ord>::max", "<usize as std::cmp::Ord>::min", "std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min",
       "<u32 as std::cmp::Ord>::max")
def m_max(I_, st, args, r, d, tys):
    a, b = args
    nm = r["fn"].split("::")[-1]
    if a == b:
        return a
    if a[0] == "i" and b[0] == "i":
        return I(max(a[1], b[1]) if nm == "max" else min(a[1], b[1]))
    return ("op", nm) + tuple(sorted((I_.deep(st, a), I_.deep(st, b)), key=repr))


@model("<i32>::abs", "<i64>::abs", "<i32>::unsigned_abs", "<i64>::unsigned_abs")
def m_iabs(I_, st, args, r, d, tys):
    if args[0][0] == "i":
        return I(abs(args[0][1]))
    return op("iabs", args[0])


@model("<T as std::string::ToString>::to_string")
def m_tostr(I_, st, args, r, d, tys):
    v = I_.deep(st, args[0])
    t = (r.get("targs") or [""])[0]
    if v[0] == "s" and t in ("str", "std::string::String", "&str"):
        return v
    return None


@model("std::cmp::Ordering::then_with")
def m_thenwith(I_, st, args, r, d, tys):
    return None


@model("std::slice::from_raw_parts_mut", "std::slice::from_raw_parts")
def m_from_raw(I_, st, args, r, d, tys):
    p, n = args
    if p[0] != "ptr":
        return None
    path = p[2]
    if path and path[-1] == ("e", I(0)):
        path = path[:-1]
    elif path and path[-1][0] == "e":
        return None
    # the slice covers the n first elements of the buffer behind the pointer
    st.ev = st.ev + (("slice_from_raw", I_.deep(st, ("ptr", p[1], path, False)) if False else ("at", p[1], path), n),)
    return ("ptr", p[1], path, True)


@model("std::vec::Vec::capacity")
def m_capacity(I_, st, args, r, d, tys):
    return ("op", "capacity", I_.deep(st, args[0]))


@model("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init", "std::sync::LazyLock::force")
def m_getorinit(I_, st, args, r, d, tys):
    # the value is the initialiser's result (initialised at most once, and always by this closure at this site)
    res = []
    for s, v in app1(I_, st, args[1], (), d):
        root = ("H", I_.fresh("cell"))
        s.mem[root] = v
        res.append((s, ("ptr", root, (), False)))
    return res


@model("std::collections::HashMap::entry")
def m_entry(I_, st, args, r, d, tys):
    key = I_.deep(st, args[1])
    md = I_.deep(st, v0(I_, st, args[0]))
    slot = ("adt", "MapSlot", "Slot", ("map", "key"), (args[0], key))
    return [(s, ("adt", "MapEntry", "Occupied" if has else "Vacant", ("0",), (slot,))) for s, has in I_.fork_bool(st, ("app", "map_has", md, key))]


def slot_of(I_, st, v):
    while v[0] == "ptr":
        v = I_.load(st, v[1], v[2])
    if v[0] == "adt" and v[1] == "MapEntry":
        v = v[4][0]
    return v if v[0] == "adt" and v[1] == "MapSlot" else None


def slot_put(I_, st, slot, v):
    """the key's slot holds v; the rest of the map is as before"""
    mp, key = slot[4]
    md = I_.deep(st, v0(I_, st, mp))
    root = ("H", I_.fresh("cell"))
    st.mem[root] = v
    p = mp
    while p[0] == "ptr":
        t = I_.load(st, p[1], p[2])
        if t[0] != "ptr":
            break
        p = t
    if p[0] == "ptr":
        I_.store(st, p[1], p[2], ("app", "map_touch", md, key, I_.deep(st, v)))
    return ("ptr", root, (), True)


def slot_get(I_, st, slot):
    mp, key = slot[4]
    return ("app", "map_get", I_.deep(st, v0(I_, st, mp)), key)


@model("std::collections::hash_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_insert")
def m_orinsert(I_, st, args, r, d, tys):
    """the slot of the key: its present value, or the inserted one (written through, the map itself becomes opaque)"""
    e = args[0]
    sl = slot_of(I_, st, e)
    if sl is None:
        return None
    if e[2] == "Occupied":
        vals = [(st, slot_get(I_, st, sl))]
    else:
        vals = app1(I_, st, args[1], [], d) if args[1][0] in ("clo", "fn") else [(st, args[1])]
    return [(s2, slot_put(I_, s2, sl, v)) for s2, v in vals]


@model("std::collections::hash_map::OccupiedEntry::get", "std::collections::hash_map::OccupiedEntry::get_mut", "std::collections::hash_map::OccupiedEntry::into_mut")
def m_occ_get(I_, st, args, r, d, tys):
    sl = slot_of(I_, st, args[0])
    return slot_put(I_, st, sl, slot_get(I_, st, sl)) if sl else None


@model("std::collections::hash_map::VacantEntry::insert", "std::collections::hash_map::OccupiedEntry::insert")
def m_vac_insert(I_, st, args, r, d, tys):
    sl = slot_of(I_, st, args[0])
    return slot_put(I_, st, sl, args[1]) if sl and "Vacant" in r["fn"] else None


# ---- vectors with individually known elements -----------------------------------------------------
def vec_place(I_, st, p):
    if p[0] != "ptr":
        raise Give("vector")
    v = I_.load(st, p[1], p[2])
    while v[0] == "ptr":
        p = v
        v = I_.load(st, p[1], p[2])
    return p, v


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def m_remove(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    i = args[1]
    if v[0] != "arr" or i[0] != "i":
        return None
    l = list(v[1])
    if i[1] >= len(l):
        raise Panic()
    x = l[i[1]]
    if r["fn"].endswith("swap_remove"):
        l[i[1]] = l[-1]
        l.pop()
    else:
        del l[i[1]]
    I_.store(st, p[1], p[2], ("arr", tuple(l)))
    return x


@model("std::vec::Vec::insert")
def m_insert(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    i = args[1]
    if v[0] != "arr" or i[0] != "i":
        return None
    l = list(v[1])
    if i[1] > len(l):
        raise Panic()
    l.insert(i[1], args[2])
    I_.store(st, p[1], p[2], ("arr", tuple(l)))
    return UNIT


@model("std::vec::Vec::truncate")
def m_truncate(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    n = args[1]
    if v[0] != "arr" or n[0] != "i":
        return None
    I_.store(st, p[1], p[2], ("arr", v[1][:n[1]]))
    return UNIT


@model("std::vec::Vec::append")
def m_append(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    q, w = vec_place(I_, st, args[1])
    if v[0] != "arr" or w[0] != "arr":
        return None
    I_.store(st, p[1], p[2], ("arr", v[1] + w[1]))
    I_.store(st, q[1], q[2], ("arr", ()))
    return UNIT


@model("std::vec::Vec::retain")
def m_retain(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    if v[0] != "arr":
        return None
    res = [(st, [])]
    for e in v[1]:
        nx = []
        for q, acc in res:
            root = ("H", I_.fresh("el"))
            q.mem[root] = e
            for x, t in I_.apply(q, args[1], [("ptr", root, (), False)], d):
                nx += [(y, acc + [e] if b else acc) for y, b in I_.fork_bool(x, t)]
        res = nx
    for q, acc in res:
        I_.store(q, p[1], p[2], ("arr", tuple(acc)))
    return [(q, UNIT) for q, _ in res]


@model("std::vec::Vec::drain")
def m_drain(I_, st, args, r, d, tys):
    p, v = vec_place(I_, st, args[0])
    rg = v0(I_, st, args[1])
    if v[0] != "arr" or rg[0] != "adt" or "RangeFull" not in rg[1]:
        return None
    I_.store(st, p[1], p[2], ("arr", ()))
    return ("iter", ("slice", v), I(0))


@model("<[T]>::binary_search_by_key")
def m_bsearchk(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    k = v0(I_, st, args[1])
    if v[0] != "arr" or k[0] != "i":
        return None
    keys = []
    for e in v[1]:
        root = ("H", I_.fresh("el"))
        st.mem[root] = e
        o = I_.apply(st, args[2], [("ptr", root, (), False)], d)
        if len(o) != 1:
            return None
        st, kv = o[0]
        kv = v0(I_, st, kv)
        if kv[0] != "i":
            return None
        keys.append(kv[1])
    lo, hi = 0, len(keys)
    while lo < hi:
        m = (lo + hi) // 2
        if keys[m] == k[1]:
            return [(st, ok(I(m)))]
        if keys[m] < k[1]:
            lo = m + 1
        else:
            hi = m
    return [(st, err(I(lo)))]


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone_from", "std::clone::Clone::clone_from", "<std::sync::Arc<T, A> as std::clone::Clone>::clone_from",
       "<std::string::String as std::clone::Clone>::clone_from", "<std::boxed::Box<T, A> as std::clone::Clone>::clone_from")
def m_clone_from(I_, st, args, r, d, tys):
    p, q = args[0], args[1]
    if p[0] != "ptr":
        return None
    v = I_.load(st, p[1], p[2])
    while v[0] == "ptr":
        p, v = v, I_.load(st, v[1], v[2])
    I_.store(st, p[1], p[2], v0(I_, st, q))
    return UNIT


ORD = "std::cmp::Ordering"


def ordering(k):
    return ("adt", ORD, ("Less", "Equal", "Greater")[k + 1], (), ())


@model("std::cmp::Ord::cmp", "<u32 as std::cmp::Ord>::cmp", "<u64 as std::cmp::Ord>::cmp", "<usize as std::cmp::Ord>::cmp", "<i32 as std::cmp::Ord>::cmp",
       "<u8 as std::cmp::Ord>::cmp", "<i64 as std::cmp::Ord>::cmp")
def m_ord_cmp(I_, st, args, r, d, tys):
    a, b = v0(I_, st, args[0]), v0(I_, st, args[1])
    while a[0] == "ptr" and b[0] == "ptr":
        a, b = v0(I_, st, a), v0(I_, st, b)
    if a[0] == "i" and b[0] == "i":
        return ordering((a[1] > b[1]) - (a[1] < b[1]))
    return None


@model("std::cmp::Ordering::reverse")
def m_ord_rev(I_, st, args, r, d, tys):
    v = v0(I_, st, args[0])
    if v[0] == "adt" and v[2] in ("Less", "Equal", "Greater"):
        return ordering(-(("Less", "Equal", "Greater").index(v[2]) - 1))
    return None


class Rev:
    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return o.k < self.k


def order_key(x):
    """key of a sort as a comparable value"""
    if x[0] == "i":
        return x[1]
    if x[0] == "b":
        return int(x[1])
    if x[0] == "tup":
        return tuple(order_key(y) for y in x[1])
    if x[0] == "adt" and x[1].endswith("cmp::Reverse"):
        return Rev(order_key(x[4][0]))
    raise Give("sort")


def sort_model(kind):
    def f(I_, st, args, r, d, tys):
        p = args[0]
        while p[0] == "ptr":
            v = I_.load(st, p[1], p[2])
            if v[0] != "ptr":
                break
            p = v
        if p[0] != "ptr" or v[0] != "arr" or len(v[1]) > CMAX:
            return None
        probe = st.copy()

        def one(x, *clo):
            root = ("H", I_.fresh("so"))
            probe.mem[root] = x
            return ("ptr", root, (), False)

        def call(fn, xs):
            o = I_.apply(probe, fn, xs, d)
            if len(o) != 1:
                raise Give("sort")
            return o[0][1]

        def less(x, y):
            if kind == "by":
                c = call(args[1], [one(x), one(y)])
            else:
                if kind == "key":
                    x, y = call(args[1], [one(x)]), call(args[1], [one(y)])
                x, y = order_key(I_.deep(probe, x)), order_key(I_.deep(probe, y))
                return x < y
            c = I_.deep(probe, c)
            if c[0] != "adt" or c[2] not in ("Less", "Equal", "Greater"):
                raise Give("sort")
            return c[2] == "Less"
        out = []
        try:
            for x in v[1]:
                i = len(out)
                while i and less(x, out[i - 1]):
                    i -= 1
                out.insert(i, x)
        except Give:
            return None
        I_.store(st, p[1], p[2], ("arr", tuple(out)))
        return UNIT
    return f


for _n, _k in {"sort": "plain", "sort_unstable": "plain", "sort_by": "by", "sort_unstable_by": "by", "sort_by_key": "key", "sort_unstable_by_key": "key"}.items():
    TABLE["<[T]>::" + _n] = sort_model(_k)


@model("<bool>::then", "std::bool::then", "core::bool::then", "bool::then", "<bool>::then_some", "bool::then_some")
def bool_then(I_, st, args, r, d, tys):
    out = []
    lazy = r["fn"].endswith("then")
    for x, b in I_.fork_bool(st, v0(I_, st, args[0])):
        if not b:
            out.append((x, NONE))
        elif lazy:
            out += [(y, some(v)) for y, v in I_.apply(x, args[1], [], d)]
        else:
            out.append((x, some(args[1])))
    return out
