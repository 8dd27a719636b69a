"""Assumed contracts of std / core / alloc / serde / indexmap / itoa / ryu functions
(the trusted library), as executable specifications on symbolic values."""
import re
import z3
import mir as M
from mir import short, refshort, strip_generics, split_top, INTTY
from vc import *
import exe
from exe import *

class Lib:
    def __init__(self):
        self.exact = {}
        self.pats = []
        self.cache = {}
    def find(self, key, path):
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = ([self.exact[key]] if key in self.exact else []) + [f for rx, f in self.pats if rx.fullmatch(key)]
        return r

LIB = Lib()
def lib(*keys):
    def deco(f):
        for k in keys:
            if k.startswith("re:"):
                LIB.pats.append((re.compile(k[3:]), f))
            else:
                LIB.exact[k] = f
        return f
    return deco

def some(ty, v): return Adt(ty, "Some", [v])
def none(ty): return Adt(ty, "None", [])
def ok(ty, v): return Adt(ty, "Ok", [v])
def err(ty, v): return Adt(ty, "Err", [v])
def optty(t): return "std::option::Option<%s>" % t

def strof(run, v):
    """string content of a str-like value or reference to one"""
    for _ in range(6):
        if is_z3(v) and v.sort() == STR:
            return v
        if isinstance(v, Ref):
            v = run.load(v.cell, v.path)
        elif isinstance(v, Adt) and v.variant in ("Borrowed", "Owned"):
            v = v.fields[0]
        elif isinstance(v, Sym) and "Cow<" in v.ty:
            if run.branch(run.is_variant(v, "Borrowed")):
                v = run.field(v, "Borrowed", 0, "&str")
            else:
                v = run.field(v, "Owned", 0, "std::string::String")
        else:
            break
    raise Unsupported("not a string: %r" % (v,))

def deep(run, v):
    while isinstance(v, Ref):
        v = run.load(v.cell, v.path)
    return v

# ---- constants
def const_value(run, p):
    m = re.match(r"(?:core|std)::(?:num::<impl )?(\w+?)(?:>)?::(MAX|MIN)$", p) or re.match(r"core::num::<impl (\w+)>::(MAX|MIN)$", p) or re.match(r"(\w+)::(MAX|MIN)$", p)
    if m and m.group(1) in INTTY:
        lo, hi = INTTY[m.group(1)]
        return z3.IntVal(hi if m.group(2) == "MAX" else lo), m.group(1)
    m = re.match(r"core::(f32|f64)::<impl f(?:32|64)>::(NAN|INFINITY|NEG_INFINITY)$", p)
    if m:
        return fp_const({"NAN": "NaN", "INFINITY": "inf", "NEG_INFINITY": "-inf"}[m.group(2)], m.group(1)), m.group(1)
    m = re.match(r"core::(f32|f64)::<impl f(?:32|64)>::(EPSILON|MAX|MIN|MIN_POSITIVE)$", p)
    if m:
        d = m.group(1) == "f64"
        v = {"EPSILON": 2.0**-52 if d else 2.0**-23, "MAX": 1.7976931348623157e308 if d else 3.4028234663852886e38, "MIN_POSITIVE": 2.2250738585072014e-308 if d else 1.1754943508222875e-38}
        v["MIN"] = -v["MAX"]
        return z3.FPVal(v[m.group(2)], F64 if d else F32), m.group(1)
    m = re.match(r"core::num::<impl (\w+)>::BITS$", p)
    if m and m.group(1) in INTTY:
        lo, hi = INTTY[m.group(1)]
        return z3.IntVal((hi - lo + 1).bit_length() - 1), "u32"
    if p.endswith("char>::REPLACEMENT_CHARACTER"):
        return z3.IntVal(0xFFFD), "char"
    if p.startswith("unsafe_libyaml::YAML_") or re.match(r"unsafe_libyaml::.*::YAML_", p):
        return None
    return None

def is_zst_const(p):
    return p.endswith("PhantomData") or "::PhantomData::" in p or p in ("std::ops::RangeFull", "std::fmt::Error")

# ---- equality / ordering (Rust semantics)
def rust_eq(run, a, b, ta="", depth=0):
    """z3 Bool or Python bool: a == b by PartialEq"""
    a, b = deep(run, a), deep(run, b)
    if is_z3(a) and is_z3(b):
        if z3.is_fp(a):
            return z3.fpEQ(a, b)
        return a == b
    ta = re.sub(r"^(&mut |&)+", "", ta.strip())
    s = short(ta) if ta else ""
    tt = ta or (a.ty if isinstance(a, (Adt, Sym)) else "")
    s = short(tt)
    if tt == "()":
        return z3.BoolVal(True)
    if tt.startswith("(") or s in ("Option", "Result", "Cow", "Ordering"):
        if s == "Cow":
            return strof(run, a) == strof(run, b)
        if tt.startswith("("):
            ts = tuple_tys(tt)
            return z3.And([rust_eq(run, run.field(a, None, i, t), run.field(b, None, i, t), t) for i, t in enumerate(ts)])
        da, db = run.case(a), run.case(b)
        if da != db:
            return z3.BoolVal(False)
        if s == "Ordering" or da == "None":
            return z3.BoolVal(True)
        args = ty_args(tt)
        t = args[0] if da in ("Some", "Ok") else args[1]
        return rust_eq(run, run.field(a, da, 0, t), run.field(b, da, 0, t), t)
    if s == "Box":
        return rust_eq(run, a, b, ty_args(tt)[0])
    # local impl
    fnk = "<%s as PartialEq>::eq" % s
    ra, rb = run.mkref(a, "shared", tt), run.mkref(b, "shared", tt)
    cand = run.ex.lookup(fnk, ["&" + tt, "&" + tt], "PartialEq", tt)
    if cand is not None:
        return call_path(run, run.frames[-1] if run.frames else None, "<%s as std::cmp::PartialEq>::eq" % tt, [ra, rb], ["&" + tt, "&" + tt], "bool")
    return run.app("eq", [run.term(a), run.term(b)], BOOL)

@lib("re:<.* as PartialEq>::eq", "re:<.* as PartialEq>::ne")
def partial_eq(run, c):
    t = c.selfty
    t0 = re.sub(r"^(&mut |&)+", "", t)
    if not t.startswith("&") and run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None:
        if c.method == "eq":
            return NotImplemented
    if c.method == "ne":
        eqk = c.key[:-2] + "eq"
        if not t.startswith("&") and run.ex.lookup(eqk, c.tys, c.trait, c.selfty) is not None:
            r = call_path(run, c.frame, c.path[:c.path.rindex("::ne")] + "::eq", c.args, c.tys, "bool")
            return z3.Not(r)
    a, b = c.args
    if t.startswith("&"):
        inner = re.match(r"<(.*)>$", c.trait[len(strip_ty_generics(c.trait)):]) if c.trait.endswith(">") else None
        a, b = deep1(run, a), deep1(run, b)
        r = None
        if not (is_z3(a) and a.sort() == STR):
            rhs = ty_args(c.trait)[0] if c.trait.endswith(">") else t
            st, ot = pointee(t), (pointee(rhs) if rhs.startswith("&") else rhs)
            tr = "std::cmp::PartialEq" + ("<%s>" % ot if ot != st else "")
            r = call_path(run, c.frame, "<%s as %s>::eq" % (st, tr), [a, b], ["&" + st, "&" + ot], "bool")
        else:
            r = strof(run, a) == strof(run, b)
        return r if c.method == "eq" else z3.Not(r)
    r = rust_eq(run, a, b, t0)
    return r if c.method == "eq" else z3.Not(r)

def deep1(run, v):
    return run.load(v.cell, v.path) if isinstance(v, Ref) else v

@lib("core::str::traits::<impl PartialEq for str>::eq", "core::str::traits::<impl std::cmp::PartialEq for str>::eq")
def str_eq(run, c):
    return strof(run, c.args[0]) == strof(run, c.args[1])

# ---- Option / Result
def arm(run, v, variant, t):
    return run.field(v, variant, 0, t)

@lib("re:<(Option|Result) as Try>::branch")
def try_branch(run, c):
    v = c.args[0]; t = c.tys[0]
    k = run.case(v)
    cf = c.ret
    if k in ("Some", "Ok"):
        return Adt(cf, "Continue", [arm(run, v, k, ty_args(t)[0])])
    if k == "None":
        return Adt(cf, "Break", [Adt("std::option::Option<std::convert::Infallible>", "None", [])])
    return Adt(cf, "Break", [Adt("std::result::Result<std::convert::Infallible, %s>" % ty_args(t)[1], "Err", [arm(run, v, "Err", ty_args(t)[1])])])

@lib("re:<(Option|Result) as FromResidual>::from_residual")
def from_residual(run, c):
    v = c.args[0]
    if v.variant == "None":
        return none(c.ret)
    e = v.fields[0]
    et = ty_args(c.tys[0])[1]
    rt = ty_args(c.ret)[1] if c.ret.endswith(">") and short(c.ret) == "Result" else et
    if et != rt and not is_param(rt) or (et != rt and is_param(rt) and not is_param(et)):
        e = call_path(run, c.frame, "<%s as std::convert::From<%s>>::from" % (rt, et), [e], [et], rt)
    return err(c.ret, e)

@lib("re:<.* as Try>::from_output")
def from_output(run, c):
    k = "Some" if short(c.ret) == "Option" else "Ok"
    return Adt(c.ret, k, [c.args[0]])

def opt_ty(c, i=0):
    return ty_args(re.sub(r"^(&mut |&)+", "", c.tys[i]))

@lib("std::option::Option::map", "std::option::Option::and_then", "std::option::Option::map_or", "std::option::Option::map_or_else",
     "std::option::Option::unwrap_or", "std::option::Option::unwrap_or_else", "std::option::Option::unwrap_or_default", "std::option::Option::ok_or", "std::option::Option::ok_or_else",
     "std::option::Option::unwrap", "std::option::Option::expect", "std::option::Option::is_some", "std::option::Option::is_none",
     "std::option::Option::or", "std::option::Option::or_else", "std::option::Option::filter", "std::option::Option::is_some_and")
def option_methods(run, c):
    m = c.method
    v = c.args[0]
    t = opt_ty(c)[0]
    if m in ("is_some", "is_none"):
        x = deep(run, v)
        return run.is_variant(x, "Some" if m == "is_some" else "None")
    k = run.case(v)
    isome = k == "Some"
    x = arm(run, v, "Some", t) if isome else None
    call = lambda f, a, ts, rt: call_value(run, c.frame, f, a, ts, rt)
    if m == "map":
        return some(c.ret, call(c.args[1], [x], [t], ty_args(c.ret)[0])) if isome else none(c.ret)
    if m == "and_then":
        return call(c.args[1], [x], [t], c.ret) if isome else none(c.ret)
    if m == "map_or":
        return call(c.args[2], [x], [t], c.ret) if isome else c.args[1]
    if m == "is_some_and":
        return call(c.args[1], [x], [t], c.ret) if isome else z3.BoolVal(False)
    if m == "map_or_else":
        return call(c.args[2], [x], [t], c.ret) if isome else call(c.args[1], [], [], c.ret)
    if m == "unwrap_or":
        return x if isome else c.args[1]
    if m == "unwrap_or_else":
        return x if isome else call(c.args[1], [], [], c.ret)
    if m == "ok_or":
        return ok(c.ret, x) if isome else err(c.ret, c.args[1])
    if m == "ok_or_else":
        return ok(c.ret, x) if isome else err(c.ret, call(c.args[1], [], [], ty_args(c.ret)[1]))
    if m in ("unwrap", "expect"):
        if isome:
            return x
        raise Panic("Option::" + m + " on None")
    if m == "or":
        return v if isome else c.args[1]
    if m == "or_else":
        return v if isome else call(c.args[1], [], [], c.ret)
    if m == "filter":
        if not isome:
            return none(c.ret)
        r = call(c.args[1], [run.mkref(x, "shared", t)], ["&" + t], "bool")
        return v if run.branch(r) else none(c.ret)
    return NotImplemented

@lib("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref", "std::option::Option::as_deref_mut")
def option_as_ref(run, c):
    r = c.args[0]
    v = deep1(run, r)
    t = opt_ty(c)[0]
    if run.case(v) == "None":
        return none(c.ret)
    pt = ty_args(c.ret)[0]
    if pt in STRTY:
        return some(c.ret, strof(run, arm(run, v, "Some", t)))
    if "deref" in c.method:
        return NotImplemented
    return some(c.ret, Ref(r.cell, r.path + (("Some", 0, t),), "mut" if c.method == "as_mut" else "shared", t))

@lib("std::option::Option::take", "std::mem::take", "std::mem::replace", "std::option::Option::replace", "std::option::Option::insert", "std::mem::swap")
def mem_take(run, c):
    r = c.args[0]
    if c.method == "swap":
        a, b = run.load(r.cell, r.path), run.load(c.args[1].cell, c.args[1].path)
        run.store(r.cell, r.path, b); run.store(c.args[1].cell, c.args[1].path, a)
        return UNIT
    old = run.load(r.cell, r.path)
    t = pointee(c.tys[0])
    if c.path.startswith("std::option::Option"):
        if c.method == "take":
            run.store(r.cell, r.path, none(t))
            return old
        if c.method == "replace":
            run.store(r.cell, r.path, some(t, c.args[1]))
            return old
        return NotImplemented
    if c.method == "take":
        run.store(r.cell, r.path, default_value(run, c.frame, t))
    else:
        run.store(r.cell, r.path, c.args[1])
    return old

def default_value(run, fr, t):
    s = short(t)
    if t in INTTY: return z3.IntVal(0)
    if t == "bool": return z3.BoolVal(False)
    if sort_of(t) == STR: return S(b"")
    if s == "Option": return none(t)
    if s == "Vec": return vec_empty(run, t)
    return call_path(run, fr, "<%s as std::default::Default>::default" % t, [], [], t)

@lib("re:<.* as Default>::default")
def default(run, c):
    t = c.selfty
    if t in INTTY or t == "bool" or sort_of(t) == STR or short(t) in ("Option", "Vec"):
        return default_value(run, c.frame, t)
    return NotImplemented

@lib("std::result::Result::map", "std::result::Result::map_err", "std::result::Result::and_then", "std::result::Result::ok", "std::result::Result::err",
     "std::result::Result::unwrap", "std::result::Result::expect", "std::result::Result::is_ok", "std::result::Result::is_err", "std::result::Result::unwrap_or_else",
     "std::result::Result::unwrap_or", "std::result::Result::or_else", "std::result::Result::unwrap_err", "std::result::Result::unwrap_unchecked")
def result_methods(run, c):
    m = c.method
    v = c.args[0]
    ts = opt_ty(c)
    if m in ("is_ok", "is_err"):
        return run.is_variant(deep(run, v), "Ok" if m == "is_ok" else "Err")
    k = run.case(v)
    isok = k == "Ok"
    t = ts[0] if isok else ts[1]
    x = arm(run, v, k, t)
    call = lambda f, a, tt, rt: call_value(run, c.frame, f, a, tt, rt)
    if m == "map":
        return ok(c.ret, call(c.args[1], [x], [t], ty_args(c.ret)[0])) if isok else err(c.ret, x)
    if m == "map_err":
        return err(c.ret, call(c.args[1], [x], [t], ty_args(c.ret)[1])) if not isok else ok(c.ret, x)
    if m == "and_then":
        return call(c.args[1], [x], [t], c.ret) if isok else err(c.ret, x)
    if m == "or_else":
        return call(c.args[1], [x], [t], c.ret) if not isok else ok(c.ret, x)
    if m == "ok":
        return some(c.ret, x) if isok else none(c.ret)
    if m == "err":
        return some(c.ret, x) if not isok else none(c.ret)
    if m in ("unwrap", "expect"):
        if isok: return x
        raise Panic("Result::" + m + " on Err")
    if m == "unwrap_err":
        if not isok: return x
        raise Panic("Result::unwrap_err on Ok")
    if m == "unwrap_or":
        return x if isok else c.args[1]
    if m == "unwrap_or_else":
        return x if isok else call(c.args[1], [x], [t], c.ret)
    return NotImplemented

# ---- closures
@lib("re:<.* as (FnOnce|FnMut|Fn)>::(call_once|call_mut|call)")
def fn_call(run, c):
    f = c.args[0]
    a = c.args[1]
    ts = tuple_tys(c.tys[1]) if c.tys[1].startswith("(") else []
    vals = [run.field(a, None, i, t) for i, t in enumerate(ts)] if ts else (list(a.fields) if isinstance(a, Adt) else [])
    fv = deep(run, f)
    if isinstance(fv, Adt) and fv.ty.startswith("{closure@"):
        fn_ = run.ex.prog.closures.get(fv.ty)
        if fn_ is not None and fn_.params[0][1].startswith("&") and isinstance(f, Ref):
            sub = dict(c.frame.subst) if c.frame else {}
            run.ex.inlined.add(fn_.name)
            return run_fn(run, fn_, [f] + vals, fn_.name, sub)
    return call_value(run, c.frame, fv, vals, ts, c.ret)

# ---- conversions
@lib("re:<.* as Deref>::deref", "re:<.* as DerefMut>::deref_mut", "re:<.* as AsRef>::as_ref", "re:<.* as Borrow>::borrow", "std::string::String::as_str",
     "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::vec::Vec::as_slice", "re:<.* as AsMut>::as_mut", "std::string::String::into_bytes", "std::string::String::into_boxed_str")
def derefs(run, c):
    v = c.args[0]
    if c.selfty and not c.selfty.startswith("&") and run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None:
        return NotImplemented
    if c.selfty and is_param(c.selfty):
        return NotImplemented
    if c.ret in STRTY:
        return strof(run, v)
    if run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None:
        return NotImplemented
    st = c.selfty or ""
    if st.startswith(("std::vec::Vec<", "std::boxed::Box<", "std::borrow::Cow", "std::sync::Arc<")) or "as_slice" in c.path:
        if st.startswith(("std::boxed::Box<", "std::sync::Arc<")):
            inner = deep1(run, v)
            if isinstance(inner, Ref):
                return Ref(inner.cell, inner.path, v.kind, inner.ty)
        return v
    return NotImplemented

@lib("re:<.* as ToOwned>::to_owned", "std::string::String::from", "re:<String as From>::from",
     "re:<.* as Into>::into", "re:<.* as Clone>::clone", "std::str::<impl str>::to_owned", "re:std::slice::<impl \\[.*\\]>::to_vec", "alloc::slice::<impl [u8]>::to_vec",
     "re:.*<impl str>::into_string", "re:.*<impl str>::into_boxed_str", "std::borrow::Cow::into_owned", "re:<.* as From>::from", "re:<.* as TryInto>::try_into", "re:<.* as TryFrom>::try_from", "re:<.* as Into>::into")
def conv(run, c):
    v = c.args[0]
    if c.key.startswith("<") and run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None and not c.key.endswith("Into>::into"):
        return NotImplemented
    t0 = re.sub(r"^(&mut |&)+", "", c.tys[0])
    if c.ret in STRTY and (c.tys[0] in STRTY or t0 in STRTY or "Cow<" in t0):
        return strof(run, v)
    if c.method in ("clone", "to_owned") and c.selfty and not is_param(c.selfty):
        if c.method == "to_owned" and run.ex.lookup("<%s as Clone>::clone" % short(c.selfty), c.tys, "std::clone::Clone", c.selfty) is not None:
            return call_path(run, c.frame, "<%s as std::clone::Clone>::clone" % c.selfty, c.args, c.tys, c.ret)
        x = deep1(run, v)
        if is_z3(x):
            return x
        s = short(c.selfty)
        if s == "Option":
            t = ty_args(c.selfty)[0]
            if run.case(x) == "None":
                return none(c.ret)
            y = arm(run, x, "Some", t)
            return some(c.ret, clone_val(run, c.frame, y, t))
        if c.selfty.startswith("&"):
            return x
        return clone_val(run, c.frame, x, c.selfty)
    if c.method == "clone" and c.selfty and is_param(c.selfty):
        return deep(run, v)       # as iter().cloned(): a clone equals what it is a clone of
    if c.method == "into":
        rt = ty_args(c.trait)[0] if c.trait and c.trait.endswith(">") else c.ret
        if rt == c.selfty:
            return v
        if is_param(c.selfty) and not is_param(rt):
            return uninterp(run, "Into::into", [v], c.ret)
        return call_path(run, c.frame, "<%s as std::convert::From<%s>>::from" % (rt, c.selfty), [v], [c.selfty], rt)
    if c.method == "from":
        at = c.tys[0]
        if at == c.ret or (is_param(at) and c.ret == at):
            return v
        if at in INTTY and c.ret in INTTY:
            return v
        if at == "f32" and c.ret == "f64":
            return fconv(v, "f64")
        if "Cow<" in c.ret and at in STRTY:
            return Adt(c.ret, "Borrowed" if at.startswith("&") else "Owned", [v])
        if c.ret.startswith("std::sync::Arc<") and is_box(at) and isinstance(v, Ref):
            return Ref(v.cell, v.path, "shared", v.ty)
        if is_box(c.ret) and pointee(c.ret) == at:
            return Ref(run.alloc(v, "box"), (), "box", at)
    if c.method in ("try_into", "try_from"):
        at = c.tys[0]
        rt = ty_args(c.ret)[0]
        if at in INTTY and rt in INTTY:
            lo, hi = INTTY[rt]
            if run.branch(z3.And(v >= lo, v <= hi)):
                return ok(c.ret, v)
            return err(c.ret, Adt("std::num::TryFromIntError", None, []))
        if c.method == "try_into":
            return call_path(run, c.frame, "<%s as std::convert::TryFrom<%s>>::try_from" % (rt, at), [v], [at], c.ret)
    if c.method == "to_string" and t0 == "char":
        return utf8(run, deep(run, v))
    return NotImplemented

def clone_val(run, fr, x, t):
    """clone of an owned value: equal content (clone of a local type is checked against its derived impl elsewhere)"""
    if isinstance(x, Ref) and x.kind == "box":
        return Ref(run.alloc(run.load(x.cell, x.path), "box"), (), "box", x.ty)
    return x

def utf8(run, ch):
    s = z3.simplify(ch)
    if z3.is_int_value(s):
        return S(chr(s.as_long()))
    r = run.app("utf8", [ch], STR)
    run.axiom(z3.And(z3.Length(r) >= 1, z3.Length(r) <= 4))
    run.axiom(z3.Implies(ch < 128, r == z3.StrFromCode(ch)))
    return r

# ---- strings
@lib("core::str::<impl str>::len", "std::string::String::len", "core::slice::<impl [u8]>::len", "core::str::<impl str>::is_empty", "std::string::String::is_empty", "core::slice::<impl [u8]>::is_empty")
def str_len(run, c):
    s = strof(run, c.args[0])
    n = z3.Length(s)
    if c.method == "is_empty":
        return n == 0
    run.axiom(n <= 2**63 - 1)
    return n

def pattern(run, c, p):
    """a &str / char pattern as a string, else None"""
    if is_z3(p) and p.sort() == STR:
        return p
    if is_z3(p) and p.sort() == INT:
        return utf8(run, p)
    if isinstance(p, Ref):
        return pattern(run, c, deep(run, p))
    return None

def charset(run, c, p):
    """a [char; n] / &[char] pattern as a list of strings"""
    p = deep(run, p)
    if isinstance(p, Adt) and p.fields and all(is_z3(f) and f.sort() == INT for f in p.fields):
        return [utf8(run, f) for f in p.fields]
    return None

def closure_charset(run, c, f, maxc=256, elem_ty="char"):
    """the set of byte-sized code points a pure predicate closure accepts; None if not determined"""
    vals = []
    for x in range(maxc):
        r = call_value(run, c.frame, f, [z3.IntVal(x)], [elem_ty], "bool")
        r = z3.simplify(r)
        if z3.is_true(r):
            vals.append(x)
        elif not z3.is_false(r):
            return None
    return vals

def re_set(vals):
    vals = sorted(vals)
    if not vals:
        return z3.Empty(z3.ReSort(STR))
    rs = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        rs.append(z3.Range(S(bytes([vals[i]])), S(bytes([vals[j]]))) if j > i else z3.Re(S(bytes([vals[i]]))))
        i = j + 1
    return rs[0] if len(rs) == 1 else z3.Union(*rs)

@lib("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains", "core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix",
     "core::slice::<impl [u8]>::starts_with", "core::slice::<impl [u8]>::ends_with", "core::slice::<impl [u8]>::contains",
     "core::slice::<impl [u8]>::strip_prefix", "core::slice::<impl [u8]>::strip_suffix")
def str_pat(run, c):
    if isinstance(deep(run, c.args[0]), Adt) and c.method == "contains" and "slice" in c.key: return NotImplemented
    s = strof(run, c.args[0])
    p = pattern(run, c, c.args[1])
    m = c.method
    if p is not None:
        ps = [p]
    else:
        ps = charset(run, c, c.args[1])
        if ps is None:
            fv = deep(run, c.args[1])
            if isinstance(fv, FnDef) or isinstance(fv, Adt) and fv.ty.startswith("{closure@"):
                vals = closure_charset(run, c, fv, 128)
                if vals is None:
                    return NotImplemented
                ps = [S(bytes([v])) for v in vals]
                run.imprecise.append("non-ASCII part of a char predicate")
            else:
                return NotImplemented
    if m == "starts_with":
        return z3.Or([z3.PrefixOf(p, s) for p in ps])
    if m == "ends_with":
        return z3.Or([z3.SuffixOf(p, s) for p in ps])
    if m == "contains":
        return z3.Or([z3.Contains(s, p) for p in ps])
    if len(ps) == 1:
        p = ps[0]
        if m == "strip_prefix":
            if run.branch(z3.PrefixOf(p, s)):
                return some(c.ret, drop(s, p))
            return none(c.ret)
        if run.branch(z3.SuffixOf(p, s)):
            return some(c.ret, z3.SubString(s, 0, z3.Length(s) - z3.Length(p)))
        return none(c.ret)
    if m == "strip_prefix":
        for p in ps:
            if run.branch(z3.PrefixOf(p, s)):
                return some(c.ret, drop(s, p))
        return none(c.ret)
    return NotImplemented

def drop(s, n):
    """s without its first n bytes (n a number or the literal that is removed); nested removals become one"""
    if is_z3(n):
        if sval(n) is None:
            return z3.SubString(s, z3.Length(n), z3.Length(s) - z3.Length(n))
        n = len(sval(n))
    if n == 0:
        return s
    k = s.decl().kind()
    if z3.is_string_value(s):
        return S(sval(s)[n:])
    if k == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(s.arg(0)):
        h = sval(s.arg(0))
        rest = [s.arg(i) for i in range(1, s.num_args())]
        rest = rest[0] if len(rest) == 1 else z3.Concat(*rest)
        if n > len(h):
            return drop(rest, n - len(h))
        return rest if n == len(h) else z3.Concat(S(h[n:]), rest)
    if k == z3.Z3_OP_SEQ_EXTRACT:
        b, o = s.arg(0), z3.simplify(s.arg(1))
        if z3.is_int_value(o) and z3.simplify(s.arg(2)).eq(z3.simplify(z3.Length(b) - o)):
            return drop(b, n + o.as_long())
    return z3.SubString(s, n, z3.Length(s) - n)

def boundary(run, s, k):
    """k is a char boundary of valid UTF-8 s (sufficient condition)"""
    code = z3.StrToCode(z3.SubString(s, k, 1))
    prev = z3.StrToCode(z3.SubString(s, k - 1, 1))
    return z3.Or(k == 0, k == z3.Length(s), prev < 128, code < 128, code >= 192)

@lib("re:<(str|String|\\[u8\\]|Vec) as Index>::index", "re:core::str::traits::<impl .*Index.* for str>::index", "re:core::slice::index::<impl .*Index.* for \\[.*\\]>::index", "core::str::<impl str>::get", "core::slice::<impl [u8]>::get")
def str_index(run, c):
    if not (c.tys[0] in STRTY or re.sub(r"^(&mut |&)+", "", c.tys[0]) in STRTY):
        if c.key.startswith("<Vec as Index>") or "[" in c.key:
            return slice_index(run, c)
        return NotImplemented
    s = strof(run, c.args[0])
    r = c.args[1]
    rt = short(c.tys[1])
    isstr = "str" in c.tys[0].lower()
    n = z3.Length(s)
    if rt == "RangeFrom":
        lo, hi = run.field(r, None, 0, "usize"), n
    elif rt == "RangeTo":
        lo, hi = z3.IntVal(0), run.field(r, None, 0, "usize")
    elif rt == "Range":
        lo, hi = run.field(r, None, 0, "usize"), run.field(r, None, 1, "usize")
    elif rt == "RangeFull":
        lo, hi = z3.IntVal(0), n
    elif c.tys[1] == "usize":
        okc = z3.And(r >= 0, r < n)
        b = z3.StrToCode(z3.SubString(s, r, 1))
        if c.method == "get":
            if run.branch(okc):
                return some(c.ret, run.mkref(b, "shared", "u8"))
            return none(c.ret)
        if not run.branch(okc):
            raise Panic("index out of bounds")
        return run.mkref(b, "shared", "u8")
    else:
        return NotImplemented
    conds = [lo >= 0, lo <= hi, hi <= n]
    if isstr:
        conds += [boundary(run, s, lo), boundary(run, s, hi)]
    good = z3.And(conds)
    if c.method == "get":
        if run.branch(good):
            return some(c.ret, z3.SubString(s, lo, hi - lo))
        return none(c.ret)
    if not run.branch(good):
        raise Panic("slice index out of range")
    return z3.SubString(s, lo, hi - lo)

@lib("core::str::<impl str>::bytes", "core::str::<impl str>::chars")
def str_iter(run, c):
    s = strof(run, c.args[0])
    return Adt("iter:" + c.method, None, [s])

@lib("re:<(std::str::)?(Bytes|Chars) as Iterator>::(all|any)")
def iter_all(run, c):
    it = deep(run, c.args[0])
    if not (isinstance(it, Adt) and it.ty in ("iter:bytes", "iter:chars")):
        return NotImplemented
    s = it.fields[0]
    b = it.ty == "iter:bytes"
    vals = closure_charset(run, c, deep(run, c.args[1]), 256 if b else 128, "u8" if b else "char")
    if vals is None:
        return NotImplemented
    if not b:
        # non-ASCII characters: decided per predicate by sampling representative ones
        hi = closure_hi(run, c, deep(run, c.args[1]))
        if hi is None:
            return NotImplemented
        if hi:
            vals = vals + list(range(128, 256))
    if c.method == "any":
        comp = sorted(set(range(256)) - set(vals))
        return z3.Not(z3.InRe(s, z3.Star(re_set(comp))))
    return z3.InRe(s, z3.Star(re_set(vals)))

def closure_hi(run, c, f):
    """verdict of a char predicate on every non-ASCII char if constant (symbolic check), else None"""
    ch = run.fresh("ch", INT)
    run.assume(z3.And(ch >= 128, ch <= 0x10FFFF))
    n = len(run.pc)
    r = call_value(run, c.frame, f, [ch], ["char"], "bool")
    if any(ch.decl().name() in q.sexpr() for q in run.pc[n:]):
        return None                     # it tells some non-ASCII characters from others
    s = z3.Solver(); s.set("timeout", 500)
    s.add(ch >= 128, ch <= 0x10FFFF)
    s.push(); s.add(r); a = s.check(); s.pop()
    s.push(); s.add(z3.Not(r)); b = s.check(); s.pop()
    if a == z3.unsat: return False
    if b == z3.unsat: return True
    return None

@lib("re:core::num::<impl u8>::is_ascii_.*", "re:core::char::methods::<impl char>::is_.*", "re:core::char::methods::<impl char>::.*", "re:std::char::methods::<impl char>::.*", "re:core::num::<impl u8>::.*ascii.*")
def ascii_preds(run, c):
    b = deep(run, c.args[0])
    rng = lambda lo, hi: z3.And(b >= ord(lo), b <= ord(hi))
    m = c.method
    if m == "is_ascii_digit": return rng("0", "9")
    if m == "is_ascii_lowercase": return rng("a", "z")
    if m == "is_ascii_uppercase": return rng("A", "Z")
    if m == "is_ascii_alphabetic": return z3.Or(rng("a", "z"), rng("A", "Z"))
    if m == "is_ascii_alphanumeric": return z3.Or(rng("a", "z"), rng("A", "Z"), rng("0", "9"))
    if m == "is_ascii_hexdigit": return z3.Or(rng("a", "f"), rng("A", "F"), rng("0", "9"))
    if m == "is_ascii": return b < 128
    if m == "is_digit":
        r = z3.simplify(c.args[1])
        if z3.is_int_value(r) and r.as_long() == 10: return rng("0", "9")
    if m == "encode_utf8":
        return utf8(run, b)
    if m == "len_utf8":
        return z3.Length(utf8(run, b))
    return NotImplemented

@lib("std::string::String::new", "std::string::String::with_capacity")
def string_new(run, c):
    return S(b"")

@lib("std::string::String::push_str", "std::string::String::push", "re:<String as Write>::write_str", "re:<String as std::fmt::Write>::write_str", "re:<String as Write>::write_char")
def push_str(run, c):
    r = c.args[0]
    old = run.load(r.cell, r.path)
    add = utf8(run, c.args[1]) if c.method in ("push", "write_char") else strof(run, c.args[1])
    run.store(r.cell, r.path, z3.Concat(old, add))
    return UNIT if c.method.startswith("push") else ok(c.ret, UNIT)

@lib("std::string::String::insert", "std::string::String::insert_str")
def string_insert(run, c):
    """only at the start"""
    r = c.args[0]
    i = z3.simplify(c.args[1]) if is_z3(c.args[1]) else z3.IntVal(c.args[1])
    if not (z3.is_int_value(i) and i.as_long() == 0):
        return NotImplemented
    add = utf8(run, c.args[2]) if c.method == "insert" else strof(run, c.args[2])
    run.store(r.cell, r.path, z3.Concat(add, run.load(r.cell, r.path)))
    return UNIT

@lib("std::str::from_utf8", "core::str::from_utf8", "std::string::String::from_utf8")
def from_utf8(run, c):
    s = strof(run, c.args[0])
    v = run.app("valid_utf8", [s], BOOL)
    if run.branch(v):
        return ok(c.ret, s)
    return err(c.ret, Sym(run.app("utf8_error", [s], U), ty_args(c.ret)[1]))

def utf8_parts(run, s):
    """of bytes that are not UTF-8: how many are before the first wrong piece, and its length (0: a piece cut off at the end)"""
    n, k = run.app("valid_up_to", [s], INT), run.app("error_len", [s], INT)
    run.axiom(z3.And(n >= 0, k >= 0, k <= 3, n + k <= 2**63 - 1))
    run.axiom(z3.Implies(z3.Not(run.app("valid_utf8", [s], BOOL)), z3.And(n < z3.Length(s), n + k <= z3.Length(s))))
    run.axiom(run.app("valid_utf8", [z3.SubString(s, z3.IntVal(0), n)], BOOL))
    return n, k

@lib("re:(std|core)::str::Utf8Error::(valid_up_to|error_len)")
def utf8_error(run, c):
    """how much is valid, and how many bytes after it are not (None: the input ends there)"""
    e = deep(run, c.args[0])
    if not (isinstance(e, Sym) and e.term.decl().name().split("#")[0] == "utf8_error"):
        return NotImplemented
    n, k = utf8_parts(run, e.term.arg(0))
    if c.method == "valid_up_to":
        return n
    return some(c.ret, k) if run.branch(k > 0) else none(c.ret)

# integer parsing
DIGS = {16: lambda: z3.Union(z3.Range("0", "9"), z3.Range("a", "f"), z3.Range("A", "F")), 10: lambda: z3.Range("0", "9"), 8: lambda: z3.Range("0", "7"), 2: lambda: z3.Range("0", "1")}
def nat(run, radix, s):
    """the number a nonempty digit string denotes"""
    v = sval(z3.simplify(s))
    if v: return z3.IntVal(int(v, radix))
    r = run.app("nat:%d" % radix, [s], INT)
    run.axiom(r >= 0)
    return r

@lib("std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked")
def from_utf8_unchecked(run, c):
    s = strof(run, c.args[0])
    run.oblige("unchecked text is valid UTF-8", run.app("valid_utf8", [s], BOOL), c.frame.key if c.frame else "")
    return s

def from_str_radix_val(run, ty, s, radix):
    """std: an optional + (for signed types also -), then one or more digits, in range"""
    rx = z3.simplify(radix) if is_z3(radix) else z3.IntVal(radix)
    if not z3.is_int_value(rx) or rx.as_long() not in DIGS:
        return run.mat(run.app("from_str_radix:" + ty, [s, rx], U), "std::result::Result<%s, std::num::ParseIntError>" % ty)
    r = rx.as_long()
    rt = "std::result::Result<%s, std::num::ParseIntError>" % ty
    lo, hi = INTTY[ty]
    digs = z3.Plus(DIGS[r]())
    e = Sym(run.app("parse_int_error:" + ty, [s, rx], U), "std::num::ParseIntError")
    # the sign is a function of the first byte
    sign = z3.Union(z3.Re("+"), z3.Re("-")) if lo < 0 else z3.Re("+")
    if not run.branch(z3.InRe(s, z3.Concat(z3.Option(sign), digs))):
        return err(rt, e)
    if lo < 0 and run.branch(z3.PrefixOf(z3.StringVal("-"), s)):
        v = -nat(run, r, drop(s, 1))
    elif run.branch(z3.PrefixOf(z3.StringVal("+"), s)):
        v = nat(run, r, drop(s, 1))
    else:
        v = nat(run, r, s)
    if run.branch(z3.And(v >= lo, v <= hi)):
        return ok(rt, v)
    return err(rt, e)

@lib("re:core::num::<impl [iu]\\d+>::from_str_radix")
def from_str_radix(run, c):
    ty = re.search(r"<impl (\w+)>", c.key).group(1)
    return from_str_radix_val(run, ty, strof(run, c.args[0]), c.args[1])

@lib("core::str::<impl str>::parse")
def str_parse(run, c):
    t = ty_args(c.ret)[0]
    s = strof(run, c.args[0])
    if t in ("f64", "f32"):
        return run.mat(run.app("parse:" + t, [s], U), c.ret)
    if t in INTTY:
        return from_str_radix_val(run, t, s, z3.IntVal(10))
    return call_path(run, c.frame, "<%s as std::str::FromStr>::from_str" % t, [c.args[0]], ["&str"], c.ret)

# floats
@lib("re:core::f(32|64)::<impl f(32|64)>::(is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive|abs|copysign|to_bits|from_bits|total_cmp|classify)", "re:std::f(32|64)::<impl f(32|64)>::.*")
def float_methods(run, c):
    a = deep(run, c.args[0])
    m = c.method
    if m == "is_nan": return z3.fpIsNaN(a)
    if m == "classify":
        for n, p in (("Nan", z3.fpIsNaN), ("Infinite", z3.fpIsInf), ("Zero", z3.fpIsZero), ("Subnormal", z3.fpIsSubnormal)):
            if run.branch(p(a)): return Adt("std::num::FpCategory", n, [])
        return Adt("std::num::FpCategory", "Normal", [])
    if m == "is_infinite": return z3.fpIsInf(a)
    if m == "is_finite": return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))
    if m == "is_sign_negative": return z3.fpIsNegative(a)
    if m == "is_sign_positive": return z3.fpIsPositive(a)
    if m == "abs": return z3.fpAbs(a)
    if m == "copysign":
        b = c.args[1]
        run.imprecise.append("copysign of NaN sign")
        return z3.If(z3.fpIsNegative(b), z3.fpNeg(z3.fpAbs(a)), z3.fpAbs(a))
    if m == "to_bits":
        r = run.app("to_bits", [a], INT)
        run.axiom(z3.And(r >= 0, r < 2**64))
        return r
    return NotImplemented

# ordering
ORD = "std::cmp::Ordering"
def ordering(x): return Adt(ORD, x, [])

@lib("re:<.* as Ord>::cmp", "re:<.* as PartialOrd>::(partial_cmp|lt|le|gt|ge)", "re:std::cmp::impls::<impl (std::cmp::)?(Ord|PartialOrd) for .*>::(cmp|partial_cmp|lt|le|gt|ge)", "re:core::cmp::impls::.*::(cmp|partial_cmp|lt|le|gt|ge)")
def cmp(run, c):
    if run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None and not (c.selfty or "").startswith("&"):
        return NotImplemented
    a, b = deep(run, c.args[0]), deep(run, c.args[1])
    if not (is_z3(a) and is_z3(b)):
        st = (c.selfty or "").strip()
        if st.startswith("&"):
            a, b = deep1(run, c.args[0]), deep1(run, c.args[1])
            it = pointee(st)
            return call_path(run, c.frame, "<%s as %s>::%s" % (it, "std::cmp::Ord" if c.method == "cmp" else "std::cmp::PartialOrd", c.method), [a, b], ["&" + it] * 2, c.ret)
        return NotImplemented
    m = c.method
    if m == "cmp" or m == "partial_cmp":
        if z3.is_fp(a):
            i = run.choose([z3.fpLT(a, b), z3.fpEQ(a, b), z3.fpGT(a, b), z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))])
            return none(c.ret) if i == 3 else some(c.ret, ordering(["Less", "Equal", "Greater"][i]))
        if a.sort() == STR:
            conds = [z3.And(a != b, str_lt(a, b)), a == b, z3.And(a != b, z3.Not(str_lt(a, b)))]
        elif a.sort() == BOOL:
            conds = [z3.And(z3.Not(a), b), a == b, z3.And(a, z3.Not(b))]
        else:
            conds = [a < b, a == b, a > b]
        i = run.choose(conds)
        o = ordering(["Less", "Equal", "Greater"][i])
        return o if m == "cmp" else some(c.ret, o)
    if a.sort() == STR:
        lt = str_lt(a, b)
        return {"lt": z3.And(a != b, lt), "le": z3.Or(a == b, lt), "gt": z3.And(a != b, z3.Not(lt)), "ge": z3.Or(a == b, z3.Not(lt))}[m]
    if z3.is_fp(a):
        return {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[m](a, b)
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[m]

def str_lt(a, b):
    x, y = sval(a), sval(b)
    if x is not None and y is not None: return z3.BoolVal(x < y)
    return fn("str_lt", [STR, STR], BOOL)(a, b)

@lib("std::cmp::Ordering::is_eq", "std::cmp::Ordering::reverse", "std::cmp::Ordering::then", "std::cmp::Ordering::then_with", "std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_ne", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_ge")
def ordering_methods(run, c):
    k = run.case(c.args[0])
    m = c.method
    if m == "is_eq": return z3.BoolVal(k == "Equal")
    if m == "is_ne": return z3.BoolVal(k != "Equal")
    if m == "is_lt": return z3.BoolVal(k == "Less")
    if m == "is_gt": return z3.BoolVal(k == "Greater")
    if m == "is_le": return z3.BoolVal(k != "Greater")
    if m == "is_ge": return z3.BoolVal(k != "Less")
    if m == "reverse": return ordering({"Less": "Greater", "Equal": "Equal", "Greater": "Less"}[k])
    if m == "then": return c.args[0] if k != "Equal" else c.args[1]
    if m == "then_with": return c.args[0] if k != "Equal" else call_value(run, c.frame, c.args[1], [], [], c.ret)

# integers
@lib("re:core::num::<impl [iu](\\d+|size)>::(checked|wrapping|saturating|overflowing)_(add|sub|mul|neg)", "re:core::num::<impl [iu](\\d+|size)>::(abs|unsigned_abs|wrapping_abs|checked_abs|is_positive|is_negative|signum|pow)")
def int_methods(run, c):
    ty = re.search(r"<impl (\w+)>", c.key).group(1)
    lo, hi = INTTY[ty]
    m = c.method
    a = c.args[0] if c.args else None
    if m == "is_negative": return a < 0
    if m == "is_positive": return a > 0
    if m == "unsigned_abs": return z3.If(a < 0, -a, a)
    mm = re.match(r"(checked|wrapping|saturating)_(add|sub|mul|neg|abs)", m)
    if mm:
        op = mm.group(2)
        e = {"neg": lambda: -a, "abs": lambda: z3.If(a < 0, -a, a)}.get(op, lambda: ARITH[op.capitalize()](a, c.args[1]))()
        good = z3.And(e >= lo, e <= hi)
        if mm.group(1) == "checked":
            return some(c.ret, e) if run.branch(good) else none(c.ret)
        if run.branch(good):
            return e
        if mm.group(1) == "wrapping":
            return wrap_int(e, ty)
        return z3.IntVal(hi) if run.branch(e > hi) else z3.IntVal(lo)
    return NotImplemented

# ---- boxes, arcs
@lib("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new")
def box_new(run, c):
    v = c.args[0]
    return Ref(run.alloc(v, "box"), (), "box" if is_box(c.ret) else "shared", c.tys[0])

# ---- Vec (sequence of values)
def vec_empty(run, t):
    e = z3.Const("vec_empty", U)
    run.axiom(run.app("len", [e], INT) == 0)
    return Sym(e, t)

@lib("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def vec_new(run, c):
    if c.ret in STRTY:
        return S(b"")
    return vec_empty(run, c.ret)

@lib("std::vec::Vec::len", "std::vec::Vec::is_empty", "re:core::slice::<impl \\[.*\\]>::(len|is_empty)")
def vec_len_(run, c):
    v = deep(run, c.args[0])
    if is_z3(v):
        n = z3.Length(v)
    elif isinstance(v, Adt):
        n = z3.IntVal(len(v.fields))
    else:
        n = vec_len(run, v)
    return n == 0 if c.method == "is_empty" else n

def vec_push_val(run, r, x):
    v = run.load(r.cell, r.path)
    old = run.term(v)
    x = run.term(x)
    n = run.app("len", [old], INT)
    run.axiom(n >= 0)
    t = run.app("push", [old, x], U)
    run.axiom(run.app("len", [t], INT) == n + 1)
    run.axiom(run.app("at", [t, n], x.sort()) == x)
    run.axiom(run.app("pop", [t], U) == old)
    run.pushes[t.get_id()] = (old, x, n, t)
    run.store(r.cell, r.path, Sym(t, v.ty))

def vec_pop_val(run, r, t):
    v = run.load(r.cell, r.path)
    old = run.term(v)
    n = run.app("len", [old], INT)
    run.axiom(n >= 0)
    if run.branch(n == 0):
        return None
    x = run.mat(run.app("at", [old, n - 1], sort_of(t)), t)
    nt = run.app("pop", [old], U)
    run.axiom(run.app("len", [nt], INT) == n - 1)
    run.axiom(run.app("push", [nt, run.term(x)], U) == old)
    run.store(r.cell, r.path, Sym(nt, v.ty))
    return x

@lib("std::vec::Vec::push")
def vec_push(run, c):
    r = c.args[0]
    v = run.load(r.cell, r.path)
    if is_z3(v):
        run.store(r.cell, r.path, z3.Concat(v, z3.StrFromCode(c.args[1])))
    else:
        vec_push_val(run, r, c.args[1])
    return UNIT

@lib("std::vec::Vec::pop")
def vec_pop(run, c):
    if is_z3(run.load(c.args[0].cell, c.args[0].path)):
        return NotImplemented
    x = vec_pop_val(run, c.args[0], ty_args(c.ret)[0])
    return none(c.ret) if x is None else some(c.ret, x)

def slice_index(run, c):
    v = c.args[0]
    if c.tys[1] != "usize":
        return NotImplemented
    cont = deep1(run, v)
    n = vec_len(run, cont) if isinstance(cont, Sym) else None
    if n is None:
        return NotImplemented
    i = c.args[1]
    if not run.branch(z3.And(i >= 0, i < n)):
        raise Panic("index out of bounds")
    et = pointee(c.ret)
    return Ref(v.cell, v.path + (("#", simp_idx(i), et),), "mut" if c.method.endswith("mut") else "shared", et)

@lib("re:<(Vec|\\[.*\\]) as IndexMut>::index_mut", "re:<(Vec|\\[.*\\]) as Index>::index")
def vec_index(run, c):
    return slice_index(run, c)

@lib("re:core::slice::<impl \\[.*\\]>::(get|get_mut)", "re:std::vec::Vec::(get|get_mut)")
def vec_get(run, c):
    v = c.args[0]
    if c.tys[0] in STRTY or c.tys[1] != "usize":
        return NotImplemented
    cont = deep1(run, v)
    n = vec_len(run, cont)
    i = c.args[1]
    if run.branch(z3.And(i >= 0, i < n)):
        et = pointee(ty_args(c.ret)[0])
        return some(c.ret, Ref(v.cell, v.path + (("#", simp_idx(i), et),), "mut" if c.method.endswith("mut") else "shared", et))
    return none(c.ret)

# ---- BTreeMap<usize, usize>
@lib("std::collections::BTreeMap::get", "std::collections::BTreeMap::insert", "std::collections::BTreeMap::len", "std::collections::BTreeMap::new", "std::collections::BTreeMap::contains_key", "re:<BTreeMap as Index>::index")
def btree(run, c):
    m = c.method
    if m == "new":
        e = z3.Const("map_empty", U)
        run.axiom(run.app("maplen", [e], INT) == 0)
        run.mapempty = True
        return Sym(e, c.ret)
    r = c.args[0]
    mv = deep1(run, r)
    mt = run.term(mv)
    if m == "len":
        n = run.app("maplen", [mt], INT)
        run.axiom(n >= 0)
        return n
    mty = re.sub(r"^(&mut |&)+", "", c.tys[0])
    kt, vt = ty_args(mty)[:2]
    if m in ("get", "contains_key", "index"):
        k = run.term(deep(run, c.args[1]))
        has, val = map_lookup(run, mt, k, vt)
        if m == "contains_key":
            return has
        if m == "index":
            if not run.branch(has):
                raise Panic("key not found")
            return run.mkref(run.mat(val, vt), "shared", vt)
        if run.branch(has):
            return some(c.ret, run.mkref(run.mat(val, vt), "shared", vt))
        return none(c.ret)
    if m == "insert":
        k, v = run.term(c.args[1]), run.term(c.args[2])
        has, val = map_lookup(run, mt, k, vt)
        t = run.app("mapput", [mt, k, v], U)
        run.axiom(run.app("maplen", [t], INT) == run.app("maplen", [mt], INT) + z3.If(has, 0, 1))
        run.axiom(run.app("maphas", [t, k], BOOL))
        run.axiom(run.app("mapat", [t, k], v.sort()) == v)
        run.mapputs = getattr(run, "mapputs", []) + [(t, mt, k, v)]
        old = some(c.ret, run.mat(val, vt)) if run.branch(has) else none(c.ret)
        run.store(r.cell, r.path, Sym(t, mty))
        return old
    return NotImplemented

def map_lookup(run, mt, k, vt):
    has = run.app("maphas", [mt, k], BOOL)
    val = run.app("mapat", [mt, k], sort_of(vt))
    for (t, m0, k0, v0) in getattr(run, "mapputs", []):
        if t.get_id() == mt.get_id():
            h0, v00 = map_lookup(run, m0, k, vt)
            run.axiom(has == z3.Or(k == k0, h0))
            run.axiom(val == z3.If(k == k0, v0, v00))
    if getattr(run, "mapempty", False) and str(mt) == "map_empty":
        run.axiom(z3.Not(has))
    return has, val

@lib("re:std::rt::panic_fmt", "re:core::panicking::.*", "re:std::rt::begin_panic.*", "re:core::option::(unwrap|expect)_failed", "re:core::result::unwrap_failed")
def panics(run, c):
    raise Panic(c.key)

@lib("std::intrinsics::unlikely", "std::hint::must_use", "std::convert::identity", "std::hint::black_box", "re:<.* as IntoIterator>::into_iter")
def ident(run, c):
    if c.method == "into_iter":
        return NotImplemented
    return c.args[0]

@lib("std::mem::drop", "std::mem::forget")
def drop_(run, c):
    return UNIT

def map_lookup_pair(run, mt, k, vt="usize"):
    """(key present: Bool, its value) of a BTreeMap term"""
    has, val = map_lookup(run, mt, k, vt)
    if vt in INTTY:
        run.axiom(z3.And(val >= INTTY[vt][0], val <= INTTY[vt][1]))
    return has, val

# ---- serde's error constructors (serde's documentation of their messages)
def expected_text(run, e):
    """what an Expected says about itself"""
    e = deep(run, e)
    if is_z3(e) and e.sort() == STR:
        return e
    t = e.ty
    key = "<%s as Expected>::fmt" % short(t)
    cand = run.ex.lookup(key, ["&" + t, "&mut std::fmt::Formatter<'_>"], "serde::de::Expected", t) if isinstance(e, Adt) else None
    if cand is not None:
        f = run.alloc(Sym(run.fresh("sink", U), "std::fmt::Formatter<'_>", {("out", 0): S(b""), ("fails", 0): z3.BoolVal(False)}))
        call_path(run, run.frames[-1] if run.frames else None, "<%s as serde::de::Expected>::fmt" % t, [run.mkref(e, "shared", t), Ref(f, (), "mut", "std::fmt::Formatter<'_>")], ["&" + t, "&mut std::fmt::Formatter<'_>"], "std::result::Result<(), std::fmt::Error>")
        return run.field(run.load(f, ()), "out", 0, "str")
    return run.app("expected_text", [run.term(e)], STR)

def serde_message(run, kind, x, exp):
    if kind == "invalid_length":
        from lib2 import int_text
        t = [S("invalid length "), int_text(x)]
    else:
        t = [S({"invalid_type": "invalid type: ", "invalid_value": "invalid value: "}[kind]), run.app("unexpected_text", [run.term(x)], STR)]
    return z3.Concat(*t, S(", expected "), expected_text(run, exp))

@lib("re:<.* as Error>::(invalid_type|invalid_value|invalid_length)")
def serde_error(run, c):
    if run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None or is_param(c.selfty):
        return NotImplemented
    m = serde_message(run, c.method, c.args[0], c.args[1])
    return call_path(run, c.frame, "<%s as %s>::custom::<std::string::String>" % (c.selfty, c.trait), [m], ["std::string::String"], c.ret)

@lib("re:<.* as Error>::custom")
def serde_custom(run, c):
    """an error of some client's type: a function of the message"""
    if not is_param(c.selfty):
        return NotImplemented
    from lib2 import display_text
    return uninterp(run, "Error::custom", [display_text(run, c.frame, c.tys[0], c.args[0])], c.ret)

@lib("re:<.* as Error>::(unknown_variant|unknown_field|missing_field|duplicate_field)")
def serde_error2(run, c):
    if run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None:
        return NotImplemented
    return uninterp(run, "serde::de::Error::" + c.method, c.args, c.ret)

@lib("serde::de::value::StrDeserializer::new", "re:.*::(Borrowed)?StrDeserializer::new", "re:<str as IntoDeserializer>::into_deserializer", "re:<&str as IntoDeserializer>::into_deserializer")
def str_deserializer(run, c):
    return uninterp(run, "BorrowedStrDeserializer::new" if "Borrowed" in c.path else "StrDeserializer::new", [strof(run, c.args[0])], c.ret)

@lib("re:<Arc as Clone>::clone")
def arc_clone(run, c):
    return deep1(run, c.args[0])

@lib("re:core::slice::<impl \\[.*\\]>::last")
def slice_last(run, c):
    """the last byte"""
    if c.tys[0] not in STRTY:
        return NotImplemented
    s = strof(run, c.args[0])
    if run.branch(s == S(b"")):
        return none(c.ret)
    return some(c.ret, run.mkref(byte_at(run, s, z3.Length(s) - 1), "shared", "u8"))

@lib("re:core::slice::<impl \\[.*\\]>::split_first", "re:core::slice::<impl \\[.*\\]>::first")
def split_first(run, c):
    """the first byte and the rest"""
    if c.tys[0] not in STRTY:
        return NotImplemented
    s = strof(run, c.args[0])
    if run.branch(s == S(b"")):
        return none(c.ret)
    b = run.mkref(byte_at(run, s, 0), "shared", "u8")
    if c.method == "first":
        return some(c.ret, b)
    return some(c.ret, Adt(ty_args(c.ret)[0], None, [b, drop(s, 1)]))

def byte_at(run, s, i):
    """the i-th byte as a number"""
    return z3.StrToCode(z3.SubString(s, i, 1))

# ---- serde's provided methods of the access traits
@lib("re:<.* as SeqAccess>::next_element")
def next_element(run, c):
    if not c.selfty or is_param(c.selfty):
        return NotImplemented
    t = ty_args(ty_args(c.ret)[0])[0]
    p = "std::marker::PhantomData<%s>" % t
    return call_path(run, c.frame, "<%s as serde::de::SeqAccess<'_>>::next_element_seed::<%s>" % (c.selfty, p), [c.args[0], Adt(p, None, [])], [c.tys[0], p], c.ret)

@lib("re:<.* as MapAccess>::(next_entry|next_key|next_value)")
def next_entry(run, c):
    if not c.selfty or is_param(c.selfty):
        return NotImplemented
    def seed(m, t, ret):
        p = "std::marker::PhantomData<%s>" % t
        return call_path(run, c.frame, "<%s as serde::de::MapAccess<'_>>::%s_seed::<%s>" % (c.selfty, m, p), [c.args[0], Adt(p, None, [])], [c.tys[0], p], ret)
    if c.method != "next_entry":
        t = ty_args(c.ret)[0]
        return seed(c.method, t if c.method == "next_value" else ty_args(t)[0], c.ret)
    kt, vt = tuple_tys(ty_args(ty_args(c.ret)[0])[0])
    et = ty_args(c.ret)[1]
    r = seed("next_key", kt, "std::result::Result<std::option::Option<%s>, %s>" % (kt, et))
    if run.case(r) == "Err":
        return err(c.ret, run.field(r, "Err", 0, et))
    k = run.field(r, "Ok", 0, "std::option::Option<%s>" % kt)
    if run.case(k) == "None":
        return ok(c.ret, none(ty_args(c.ret)[0]))
    v = seed("next_value", vt, "std::result::Result<%s, %s>" % (vt, et))
    if run.case(v) == "Err":
        return err(c.ret, run.field(v, "Err", 0, et))
    return ok(c.ret, some(ty_args(c.ret)[0], Adt("(%s, %s)" % (kt, vt), None, [run.field(k, "Some", 0, kt), run.field(v, "Ok", 0, vt)])))
