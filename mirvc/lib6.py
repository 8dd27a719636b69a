"""Assumed contracts, continued: less common functions of std, so that code that comes to use them stays within reach."""
import re
import z3
import vc, exe
from vc import *
from exe import *
import lib as L, lib5
from lib import lib, LIB, some, none, ok, err, strof, deep, deep1, opt_ty, arm, default_value, utf8, drop, byte_at, pattern, charset, closure_charset, closure_hi, re_set, boundary, ordering, vec_empty, btree
from lib3 import SEQIT, it_parts, seq_len
from mir import INTTY

def lit(x):
    """the value of a number that is written out, else None"""
    x = z3.simplify(x) if is_z3(x) else x
    return x.as_long() if is_z3(x) and z3.is_int_value(x) else None

# ------------------------------------------------------------------ Option, Result
@lib("std::option::Option::copied", "std::option::Option::cloned")
def opt_copied(run, c):
    t, o = opt_ty(c)[0], c.args[0]
    if run.case(o) == "None": return none(c.ret)
    x = arm(run, o, "Some", t)
    pt = ty_args(c.ret)[0]
    if c.method == "copied" or is_z3(deep1(run, x)): return some(c.ret, deep1(run, x))
    return some(c.ret, call_path(run, c.frame, "<%s as std::clone::Clone>::clone" % pt, [x], [t], pt))

@lib("std::option::Option::unwrap_or_default", "std::option::Option::xor", "std::option::Option::zip", "std::option::Option::insert", "std::option::Option::get_or_insert",
     "std::option::Option::get_or_insert_with", "std::option::Option::is_none_or", "std::option::Option::flatten", "std::option::Option::transpose", "std::option::Option::unzip",
     "std::option::Option::take_if", "std::option::Option::and", "std::option::Option::inspect")
def option_more(run, c):
    m, o = c.method, c.args[0]
    t = opt_ty(c)[0]
    if m in ("insert", "get_or_insert", "get_or_insert_with"):
        if m == "insert" or run.case(run.load(o.cell, o.path)) == "None":
            x = call_value(run, c.frame, c.args[1], [], [], t) if m.endswith("with") else c.args[1]
            run.store(o.cell, o.path, some(pointee(c.tys[0]), x))
        return Ref(o.cell, o.path + (("Some", 0, t),), "mut", t)
    if m == "take_if": return NotImplemented
    is_some = run.case(o) == "Some"
    x = arm(run, o, "Some", t) if is_some else None
    if m == "unwrap_or_default": return x if is_some else default_value(run, c.frame, t)
    if m == "is_none_or": return call_value(run, c.frame, c.args[1], [x], [t], "bool") if is_some else z3.BoolVal(True)
    if m == "flatten": return x if is_some else none(c.ret)
    if m == "and": return c.args[1] if is_some else none(c.ret)
    if m == "transpose":
        rt = ty_args(c.ret)
        if not is_some: return ok(c.ret, none(rt[0]))
        a = ty_args(t)
        if run.case(x) == "Ok": return ok(c.ret, some(rt[0], run.field(x, "Ok", 0, a[0])))
        return err(c.ret, run.field(x, "Err", 0, a[1]))
    if m in ("xor", "zip"):
        p = c.args[1]
        t2 = ty_args(c.tys[1])[0]
        other = run.case(p) == "Some"
        if m == "xor":
            return o if is_some and not other else p if other and not is_some else none(c.ret)
        if is_some and other:
            return some(c.ret, Adt(ty_args(c.ret)[0], None, [x, arm(run, p, "Some", t2)]))
        return none(c.ret)
    return NotImplemented

@lib("std::result::Result::is_ok_and", "std::result::Result::is_err_and", "std::result::Result::unwrap_or_default", "std::result::Result::map_or", "std::result::Result::map_or_else",
     "std::result::Result::and", "std::result::Result::or", "std::result::Result::transpose", "std::result::Result::as_ref", "std::result::Result::expect_err")
def result_more(run, c):
    m, r = c.method, c.args[0]
    ts = opt_ty(c)
    if m == "as_ref":
        v = deep1(run, r)
        k = run.case(v)
        t = ts[0 if k == "Ok" else 1]
        pt = ty_args(c.ret)[0 if k == "Ok" else 1]
        x = strof(run, run.field(v, k, 0, t)) if pt in STRTY else Ref(r.cell, r.path + ((k, 0, t),), "shared", t)
        return Adt(c.ret, k, [x])
    good = run.case(r) == "Ok"
    t = ts[0 if good else 1]
    x = arm(run, r, "Ok" if good else "Err", t)
    call = lambda f, rt: call_value(run, c.frame, f, [x], [t], rt)
    if m == "is_ok_and": return call(c.args[1], "bool") if good else z3.BoolVal(False)
    if m == "is_err_and": return call(c.args[1], "bool") if not good else z3.BoolVal(False)
    if m == "unwrap_or_default": return x if good else default_value(run, c.frame, ts[0])
    if m == "map_or": return call(c.args[2], c.ret) if good else c.args[1]
    if m == "map_or_else": return call(c.args[2], c.ret) if good else call(c.args[1], c.ret)
    if m == "and": return c.args[1] if good else err(c.ret, x)
    if m == "or": return ok(c.ret, x) if good else c.args[1]
    if m == "transpose":
        if not good: return some(c.ret, err(ty_args(c.ret)[0], x))
        if run.case(x) == "None": return none(c.ret)
        return some(c.ret, ok(ty_args(c.ret)[0], run.field(x, "Some", 0, ty_args(t)[0])))
    return NotImplemented

# ------------------------------------------------------------------ strings
def ascii_fold_re(b):
    """the strings that differ from b only in the case of ASCII letters"""
    rs = []
    for x in b:
        ch = bytes([x])
        rs.append(z3.Union(z3.Re(S(ch.lower())), z3.Re(S(ch.upper()))) if ch.isalpha() and x < 128 else z3.Re(S(ch)))
    return z3.Re(S(b"")) if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)

@lib("core::str::<impl str>::eq_ignore_ascii_case", "re:core::slice::(ascii::)?<impl \\[u8\\]>::eq_ignore_ascii_case")
def eq_ic(run, c):
    a, b = strof(run, c.args[0]), strof(run, c.args[1])
    for x, y in ((a, b), (b, a)):
        v = sval(y)
        if v is not None:
            return z3.InRe(x, ascii_fold_re(v))
    return NotImplemented

@lib("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def str_find(run, c):
    s = strof(run, c.args[0])
    p = pattern(run, c, c.args[1])
    if p is None or sval(p) is None: return NotImplemented
    if not run.branch(z3.Contains(s, p)): return none(c.ret)
    i = z3.IndexOf(s, p, 0) if c.method == "find" else z3.LastIndexOf(s, p)
    return some(c.ret, i)

@lib("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def str_split_once(run, c):
    s = strof(run, c.args[0])
    p = pattern(run, c, c.args[1])
    if p is None or not sval(p): return NotImplemented
    if not run.branch(z3.Contains(s, p)): return none(c.ret)
    i = z3.IndexOf(s, p, 0) if c.method == "split_once" else z3.LastIndexOf(s, p)
    n = i + len(sval(p))
    return some(c.ret, Adt(ty_args(c.ret)[0], None, [z3.SubString(s, 0, i), z3.SubString(s, n, z3.Length(s) - n)]))

@lib("core::str::<impl str>::split_at")
def str_split_at(run, c):
    s, k = strof(run, c.args[0]), c.args[1]
    if not run.branch(z3.And(k >= 0, k <= z3.Length(s), boundary(run, s, k))): raise Panic("split_at")
    return Adt(c.ret, None, [z3.SubString(s, 0, k), z3.SubString(s, k, z3.Length(s) - k)])

@lib("core::str::<impl str>::is_char_boundary")
def str_boundary(run, c):
    s, k = strof(run, c.args[0]), c.args[1]
    return z3.And(k >= 0, k <= z3.Length(s), boundary(run, s, k))

@lib("core::str::<impl str>::is_ascii", "re:core::slice::(ascii::)?<impl \\[u8\\]>::is_ascii")
def str_is_ascii(run, c):
    return z3.InRe(strof(run, c.args[0]), z3.Star(z3.Range(S(b"\0"), S(b"\x7f"))))

@lib("re:std::str::<impl str>::repeat", "re:core::str::<impl str>::repeat")
def str_repeat(run, c):
    k = lit(c.args[1])
    if k is None or k > 16: return NotImplemented
    s = strof(run, c.args[0])
    return S(b"") if k == 0 else s if k == 1 else z3.Concat(*[s] * k)

@lib("re:<String as (std::ops::)?Add>::add")
def string_add(run, c):
    return z3.Concat(strof(run, c.args[0]), strof(run, c.args[1]))

@lib("re:<String as (std::ops::)?AddAssign>::add_assign")
def string_add_assign(run, c):
    r = c.args[0]
    run.store(r.cell, r.path, z3.Concat(run.load(r.cell, r.path), strof(run, c.args[1])))
    return UNIT

@lib("std::string::String::clear", "std::string::String::truncate")
def string_clear(run, c):
    r = c.args[0]
    s = run.load(r.cell, r.path)
    if not is_z3(s): return NotImplemented
    if c.method == "clear":
        run.store(r.cell, r.path, S(b""))
        return UNIT
    k = c.args[1]
    if run.branch(k <= z3.Length(s)):
        if not run.branch(boundary(run, s, k)): raise Panic("truncate inside a character")
        run.store(r.cell, r.path, z3.SubString(s, 0, k))
    return UNIT

@lib("std::string::String::pop")
def string_pop(run, c):
    r = c.args[0]
    s = run.load(r.cell, r.path)
    if run.branch(s == S(b"")): return none(c.ret)
    b = byte_at(run, s, z3.Length(s) - 1)
    if not run.branch(b < 128): return NotImplemented
    run.store(r.cell, r.path, z3.SubString(s, 0, z3.Length(s) - 1))
    return some(c.ret, b)

def first_char(run, s):
    """(first character, rest) of a string that is not empty"""
    b = byte_at(run, s, 0)
    if run.branch(z3.And(b >= 0, b < 128)): return b, drop(s, 1)
    ch = run.app("first_char", [s], INT)
    u = run.app("utf8", [ch], STR)
    run.axiom(z3.And(ch >= 128, ch <= 0x10FFFF, z3.PrefixOf(u, s), z3.Length(u) >= 2, z3.Length(u) <= 4))
    return ch, z3.SubString(s, z3.Length(u), z3.Length(s) - z3.Length(u))

@lib("std::string::String::remove")
def string_remove(run, c):
    r = c.args[0]
    s = run.load(r.cell, r.path)
    if lit(c.args[1]) != 0: return NotImplemented
    if run.branch(s == S(b"")): raise Panic("String::remove")
    ch, rest = first_char(run, s)
    run.store(r.cell, r.path, rest)
    return ch

def str_it(run, v):
    """the string an iterator over bytes or characters has left"""
    it = deep(run, v)
    return it.fields[0] if isinstance(it, Adt) and it.ty in ("iter:bytes", "iter:chars") else None

@lib("re:<(std::str::)?(Bytes|Chars) as Iterator>::(next|count|last|nth)", "re:<(std::str::)?Bytes as ExactSizeIterator>::len", "re:std::str::Chars::as_str")
def str_it_next(run, c):
    s = str_it(run, c.args[0])
    if s is None: return NotImplemented
    it = deep(run, c.args[0])
    m, byts = c.method, it.ty == "iter:bytes"
    if m == "as_str": return s
    if m in ("count", "len"):
        return z3.Length(s) if byts else NotImplemented
    if m == "last":
        if run.branch(s == S(b"")): return none(c.ret)
        b = byte_at(run, s, z3.Length(s) - 1)
        if byts or run.branch(z3.And(b >= 0, b < 128)): return some(c.ret, b)
        return NotImplemented
    r = c.args[0]
    k = 0
    if m == "nth":
        k = lit(c.args[1])
        if k is None or k > 8: return NotImplemented
    for i in range(k + 1):
        if run.branch(s == S(b"")):
            run.store(r.cell, r.path, Adt(it.ty, None, [S(b"")]))
            return none(c.ret)
        x, s = (byte_at(run, s, 0), drop(s, 1)) if byts else first_char(run, s)
        if byts: run.axiom(z3.And(x >= 0, x <= 255))
    run.store(r.cell, r.path, Adt(it.ty, None, [s]))
    return some(c.ret, x)

@lib("re:<%s as Iterator>::(all|any|position)" % SEQIT)
def over_bytes(run, c):
    """iterators over the bytes of a slice, not begun"""
    ty = pointee(c.tys[0])
    if not re.search(r"slice::Iter<(.*, )?u8>$", ty): return NotImplemented
    s, p = it_parts(run, deep(run, c.args[0]))
    s = deep(run, s)
    if not (is_z3(s) and s.sort() == STR) or lit(p) is None: return NotImplemented
    s = drop(s, lit(p)) if lit(p) else s
    f = deep(run, c.args[1])
    vals = []
    for x in range(256):
        r = z3.simplify(call_value(run, c.frame, f, [run.mkref(z3.IntVal(x), "shared", "u8")], ["&u8"], "bool"))
        if z3.is_true(r): vals.append(x)
        elif not z3.is_false(r): return NotImplemented
    comp = sorted(set(range(256)) - set(vals))
    if c.method == "all": return z3.InRe(s, z3.Star(re_set(vals)))
    found = z3.Not(z3.InRe(s, z3.Star(re_set(comp))))
    if c.method == "any": return found
    if not run.branch(found): return none(c.ret)
    if len(vals) != 1: return NotImplemented
    return some(c.ret, z3.IndexOf(s, S(bytes(vals)), 0))

@lib("re:core::slice::<impl \\[.*\\]>::contains")
def bytes_contains(run, c):
    if "[u8]" not in c.tys[0]: return NotImplemented
    s = deep(run, c.args[0])
    if not (is_z3(s) and s.sort() == STR): return NotImplemented
    return z3.Contains(s, z3.StrFromCode(deep(run, c.args[1])))

# ------------------------------------------------------------------ characters and bytes
def inr(b, *rs): return z3.Or([z3.And(b >= lo, b <= hi) for lo, hi in rs])
UP, LOW, DIG = (65, 90), (97, 122), (48, 57)
SPACE = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]

@lib("re:core::num::<impl u8>::(to_ascii_\\w+|eq_ignore_ascii_case|is_ascii_\\w+)", "re:(core|std)::char::methods::<impl char>::\\w+")
def char_more(run, c):
    b, m = deep(run, c.args[0]), c.method
    if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
        up = m.endswith("uppercase")
        return z3.If(inr(b, LOW if up else UP), b - 32 if up else b + 32, b)
    if m == "eq_ignore_ascii_case":
        d = deep(run, c.args[1])
        low = lambda x: z3.If(inr(x, UP), x + 32, x)
        return low(b) == low(d)
    if m == "is_ascii_punctuation": return inr(b, (33, 47), (58, 64), (91, 96), (123, 126))
    if m == "is_ascii_graphic": return inr(b, (33, 126))
    if m == "is_ascii_whitespace": return inr(b, (9, 10), (12, 13), (32, 32))
    if m == "is_ascii_control": return inr(b, (0, 31), (127, 127))
    if m == "is_control": return inr(b, (0, 31), (127, 159))
    if m == "is_whitespace": return inr(b, *SPACE)
    if m in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_lowercase", "is_uppercase"):
        asc = {"is_alphabetic": (UP, LOW), "is_alphanumeric": (UP, LOW, DIG), "is_numeric": (DIG,), "is_lowercase": (LOW,), "is_uppercase": (UP,)}[m]
        return z3.If(b < 128, inr(b, *asc), run.app("char::" + m, [b], BOOL))
    if m == "len_utf8": return z3.If(b < 0x80, 1, z3.If(b < 0x800, 2, z3.If(b < 0x10000, 3, z3.IntVal(4))))
    if m in ("to_digit", "is_digit"):
        r = lit(c.args[1])
        if r is None or r > 36: return NotImplemented
        conds = [(inr(b, (48, 47 + min(r, 10))), b - 48)]
        if r > 10: conds += [(inr(b, (97, 86 + r)), b - 87), (inr(b, (65, 54 + r)), b - 55)]
        if m == "is_digit": return z3.Or([x for x, _ in conds])
        for x, v in conds:
            if run.branch(x): return some(c.ret, v)
        return none(c.ret)
    return NotImplemented

# ------------------------------------------------------------------ numbers
@lib("re:core::num::<impl [iu](\\d+|size)>::(overflowing_(add|sub|mul|neg)|abs|pow|rem_euclid|div_euclid|signum|abs_diff|checked_(div|rem|rem_euclid|div_euclid|pow)|is_power_of_two)")
def int_more(run, c):
    ty = re.search(r"<impl (\w+)>", c.key).group(1)
    lo, hi = INTTY[ty]
    m, a = c.method, c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    if m.startswith("overflowing_"):
        e = -a if m.endswith("neg") else ARITH[m[12:].capitalize()](a, b)
        good = z3.And(e >= lo, e <= hi)
        return Adt(c.ret, None, [z3.If(good, e, wrap_int(e, ty)), z3.Not(good)])
    if m == "abs":
        if not run.branch(a > lo): raise Panic("attempt to negate with overflow")
        return z3.If(a < 0, -a, a)
    if m == "signum": return z3.If(a > 0, z3.IntVal(1), z3.If(a < 0, z3.IntVal(-1), z3.IntVal(0)))
    if m == "abs_diff": return z3.If(a > b, a - b, b - a)
    if m in ("rem_euclid", "div_euclid") and (lit(b) or 0) > 0:
        return a % b if m[0] == "r" else a / b
    if m in ("checked_div", "checked_rem", "checked_div_euclid", "checked_rem_euclid") and (lit(b) or 0) > 0:
        if "euclid" in m or run.branch(a >= 0): return some(c.ret, a % b if "rem" in m else a / b)
        return some(c.ret, -((-a) % b) if "rem" in m else -((-a) / b))
    if m in ("pow", "checked_pow"):
        k = lit(b)
        if k is None or k > 8: return NotImplemented
        e = z3.IntVal(1)
        for _ in range(k): e = e * a
        if not run.branch(z3.And(e >= lo, e <= hi)):
            if m == "checked_pow": return none(c.ret)
            raise Panic("attempt to multiply with overflow")
        return e if m == "pow" else some(c.ret, e)
    return NotImplemented

@lib("re:<[iu](8|16|32|64|128|size) as Ord>::clamp")
def int_clamp(run, c):
    a, lo, hi = c.args
    if not run.branch(lo <= hi): raise Panic("clamp")
    return z3.If(a < lo, lo, z3.If(a > hi, hi, a))

@lib("re:std::ops::(Range|RangeFrom|RangeTo|RangeInclusive|RangeToInclusive)::contains", "re:<(Range|RangeFrom|RangeTo|RangeInclusive|RangeToInclusive) as RangeBounds>::contains")
def range_contains(run, c):
    ty = re.sub(r"^(&mut |&)+", "", c.tys[0])
    e = ty_args(ty)[0]
    if e not in INTTY and e not in ("f64", "f32"): return NotImplemented
    r, x = deep(run, c.args[0]), deep(run, c.args[1])
    le = (lambda p, q: z3.fpLEQ(p, q)) if e[0] == "f" else (lambda p, q: p <= q)
    lt = (lambda p, q: z3.fpLT(p, q)) if e[0] == "f" else (lambda p, q: p < q)
    k = short(ty)
    f = lambda i: run.field(r, None, i, e)
    if k == "Range": return z3.And(le(f(0), x), lt(x, f(1)))
    if k == "RangeFrom": return le(f(0), x)
    if k == "RangeTo": return lt(x, f(0))
    if k == "RangeToInclusive": return le(x, f(0))
    return z3.And(le(f(0), x), le(x, f(1)))

@lib("re:std::ops::RangeInclusive::new")
def range_new(run, c):
    return Adt(c.ret, None, [c.args[0], c.args[1], z3.BoolVal(False)])

@lib("re:<(std::ops::)?Range as IntoIterator>::into_iter")
def range_iter(run, c):
    return c.args[0]

@lib("re:<(std::ops::)?Range as Iterator>::next")
def range_next(run, c):
    t = ty_args(pointee(c.tys[0]))[0]
    if t not in INTTY: return NotImplemented
    r = c.args[0]
    v = run.load(r.cell, r.path)
    a, b = run.field(v, None, 0, t), run.field(v, None, 1, t)
    if not run.branch(a < b): return none(c.ret)
    run.store(r.cell, r.path, run.set_field(v, None, 0, z3.simplify(a + 1)))
    return some(c.ret, a)

@lib("re:(core|std)::f(32|64)::<impl f(32|64)>::(trunc|floor|ceil|round|round_ties_even|fract|signum|is_normal|is_subnormal|recip)")
def float_more(run, c):
    a, m = deep(run, c.args[0]), c.method
    r = {"trunc": z3.RTZ(), "floor": z3.RTN(), "ceil": z3.RTP(), "round": z3.RNA(), "round_ties_even": z3.RNE()}
    if m in r: return z3.fpRoundToIntegral(r[m], a)
    if m == "fract": return z3.fpSub(z3.RNE(), a, z3.fpRoundToIntegral(z3.RTZ(), a))
    if m == "is_normal": return z3.fpIsNormal(a)
    if m == "is_subnormal": return z3.fpIsSubnormal(a)
    if m == "signum":
        one = z3.FPVal(1.0, a.sort())
        return z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNegative(a), z3.fpNeg(one), one))
    return NotImplemented

# ------------------------------------------------------------------ vectors, slices, maps
@lib("std::vec::Vec::clear", "std::vec::Vec::truncate")
def v_clear(run, c):
    r = c.args[0]
    old = run.load(r.cell, r.path)
    if c.method == "truncate" and lit(c.args[1]) != 0: return NotImplemented
    run.store(r.cell, r.path, S(b"") if is_z3(old) else vec_empty(run, pointee(c.tys[0])))
    return UNIT

@lib("std::vec::Vec::extend_from_slice")
def v_extend_bytes(run, c):
    r = c.args[0]
    old = run.load(r.cell, r.path)
    if not (is_z3(old) and old.sort() == STR): return NotImplemented
    run.store(r.cell, r.path, z3.Concat(old, strof(run, c.args[1])))
    return UNIT

@lib("re:core::slice::<impl \\[.*\\]>::(first|first_mut|last|last_mut)")
def slice_end(run, c):
    r = c.args[0]
    if not isinstance(r, Ref) or c.tys[0] in STRTY: return NotImplemented
    v = deep1(run, r)
    if isinstance(v, Adt) and v.variant is None: n = z3.IntVal(len(v.fields))
    elif isinstance(v, Sym): n = vec_len(run, v)
    else: return NotImplemented
    if not run.branch(n > 0): return none(c.ret)
    et = pointee(ty_args(c.ret)[0])
    i = 0 if "first" in c.method else simp_idx(n - 1)
    return some(c.ret, Ref(r.cell, r.path + (("#", i, et),), "mut" if c.method.endswith("mut") else "shared", et))

@lib("re:std::collections::HashMap::(new|get|insert|contains_key|len)", "re:<HashMap as Index>::index", "re:<(HashMap|BTreeMap) as Default>::default")
def hashmap(run, c):
    if c.method == "default": c.method = "new"
    return btree(run, c)

@lib("alloc::alloc::exchange_malloc")
def exchange_malloc(run, c):
    return Sym(run.fresh("new memory", U), c.ret)

@lib("re:(std|alloc)::slice::<impl \\[.*\\]>::into_vec")
def into_vec(run, c):
    if lib5.is_work(c.ret):
        v = c.args[0]
        while isinstance(v, Ref) or (isinstance(v, Adt) and len(v.fields) == 1 and v.variant is None and not (isinstance(v.fields[0], Ref) and v.fields[0].kind == "mut")):
            v = run.load(v.cell, v.path) if isinstance(v, Ref) else v.fields[0]
        if not (isinstance(v, Adt) and all(isinstance(x, Ref) and x.kind == "mut" for x in v.fields)): return NotImplemented
        r = run.mkref(vec_empty(run, c.ret), "mut", c.ret)
        for x in v.fields: lib5.push_place(run, r, x)
        return run.load(r.cell, r.path)
    v = deep(run, c.args[0])
    if is_z3(v) or not isinstance(v, Adt): return v if isinstance(v, Sym) or is_z3(v) else NotImplemented
    if c.ret in STRTY:
        return z3.Concat(*[z3.StrFromCode(x) for x in v.fields]) if len(v.fields) > 1 else z3.StrFromCode(v.fields[0])
    r = run.mkref(vec_empty(run, c.ret), "mut", c.ret)
    for x in v.fields: L.vec_push_val(run, r, x)
    return run.load(r.cell, r.path)
