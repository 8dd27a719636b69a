"""de.rs, scalars: the one grammar by which plain text becomes null, bool, integer, float or string (C01; C02, C03, C04, C17, C18 build on it)"""
from contracts.dsl import *

DEC = alt(lit("0"), cat(rng("1", "9"), star(DIGIT)))      # no redundant leading zeros
HEX = plus(alt(rng("0", "9"), rng("a", "f"), rng("A", "F")))
OCT, BIN = plus(rng("0", "7")), plus(rng("0", "1"))
FORMS = [("0x", 16, HEX), ("0o", 8, OCT), ("0b", 2, BIN), ("", 10, DEC)]
UINT = cat(optr("+"), alt(cat("0x", HEX), cat("0o", OCT), cat("0b", BIN), DEC))
NINT = cat("-", alt(cat("0x", HEX), cat("0o", OCT), cat("0b", BIN), DEC))
INTROW = alt(UINT, NINT)
NULLS = ["null", "Null", "NULL", "~"]
TRUES, FALSES = ["true", "True", "TRUE"], ["false", "False", "FALSE"]
PINF, NINF = [x for y in (".inf", ".Inf", ".INF") for x in (y, "+" + y)], ["-.inf", "-.Inf", "-.INF"]
NANS = [".nan", ".NaN", ".NAN"]
ZEROPADDED = cat(optr(alt("+", "-")), "0", plus(DIGIT))

def inset(s, l):
    return z3.Or([s == S(x) for x in l])

def radix_fn(ty):
    return FnDef("core::num::<impl %s>::from_str_radix" % ty)

def fty(f):
    """the integer type a from_str_radix function is for"""
    return re.search(r"<impl (\w+)>", f.path).group(1)

drop = lib.drop

def magnitude(c, s, signs):
    """(sign, magnitude) of an integer of the given sign spellings, or None; forks on sign and base"""
    for sg in signs:
        for pfx, radix, d in FORMS:
            if c.branch(inre(s, cat(sg + pfx, d) if sg + pfx else d)):
                return sg, lib.nat(c.run, radix, drop(s, len(sg + pfx)) if sg + pfx else s)
    return None

def int_of(c, s, signs, ty):
    """Some(value) when s is such an integer and fits the type"""
    m = magnitude(c, s, signs)
    if m is None:
        return none(c.ret)
    v = -m[1] if m[0] == "-" else m[1]
    lo, hi = INTTY[ty]
    return opt(c, z3.And(v >= lo, v <= hi), v)

def rt(c, f):
    c.ret = "std::option::Option<%s>" % fty(f)
    return strof(c.run, c.a0)

def parse_unsigned_int(c, s, f):
    """optional +, then 0x/0o/0b digits or a decimal without redundant zeros, in range"""
    c.ret = "std::option::Option<%s>" % fty(f)
    return int_of(c, strof(c.run, s), ["", "+"], fty(f))

def parse_signed_int(c, s, f):
    c.ret = "std::option::Option<%s>" % fty(f)
    return int_of(c, strof(c.run, s), ["", "+", "-"], fty(f))

def parse_negative_int(c, s, f):
    """for what is not an unsigned integer: optional - and any base, in range; a decimal may also carry no sign or +"""
    c.ret = "std::option::Option<%s>" % fty(f)
    s = strof(c.run, s)
    for sg, forms in (("-", FORMS), ("", FORMS[3:]), ("+", FORMS[3:])):
        for pfx, radix, d in forms:
            if c.branch(inre(s, cat(sg + pfx, d) if sg + pfx else d)):
                v = lib.nat(c.run, radix, drop(s, len(sg + pfx)) if sg + pfx else s)
                v = -v if sg == "-" else v
                lo, hi = INTTY[fty(f)]
                return opt(c, z3.And(v >= lo, v <= hi), v)
    return none(c.ret)

def digits_but_not_number(c, s):
    """zero-prefixed digits, optionally signed"""
    return inre(strof(c.run, s), ZEROPADDED)

def parse_null(c, s):
    return opt(c, inset(strof(c.run, s), NULLS), UNIT)

def parse_bool(c, s):
    s = strof(c.run, s)
    if c.branch(inset(s, TRUES)): return some(c.ret, z3.BoolVal(True))
    return opt(c, inset(s, FALSES), z3.BoolVal(False))

def rust_f64(c, s):
    """std's str::parse::<f64>"""
    return c.run.mat(c.run.app("parse:f64", [s], U), "std::result::Result<f64, std::num::ParseFloatError>")

def parse_f64(c, s):
    """.inf / .nan in the accepted spellings, or a Rust float literal (at most one sign) that is finite"""
    s = strof(c.run, s)
    if c.branch(inset(s, PINF)): return some(c.ret, z3.fpPlusInfinity(F64))
    if c.branch(inset(s, NINF)): return some(c.ret, z3.fpMinusInfinity(F64))
    if c.branch(inset(s, NANS)): return some(c.ret, NAN)
    body = s
    if c.branch(z3.PrefixOf(S("+"), s)):
        body = drop(s, 1)
        if c.branch(inre(body, cat(alt("+", "-"), z3.Full(z3.ReSort(STR))))):
            return none(c.ret)
    r = rust_f64(c, body)
    if c.case(r) != "Ok": return none(c.ret)
    x = c.field(r, "Ok", 0, "f64")
    return opt(c, z3.Not(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x))), x)

# ------------------------------------------------------------------ rows
def int_row(c, s):
    """(method, value) by which an integer scalar reaches the visitor, or None; forks"""
    m = magnitude(c, s, ["", "+", "-"])
    if m is None:
        return None
    if m[0] != "-":
        if c.branch(m[1] <= U64[1]): return "u64", m[1]
        if c.branch(m[1] <= 2**128 - 1): return "u128", m[1]
        return None
    v = -m[1]
    if c.branch(v >= I64[0]): return "i64", v
    if c.branch(v >= -2**127): return "i128", v
    return None

def visit_int(c, visitor, s):
    """an integer goes to the visitor as u64, i64, u128 or i128, the first that holds it; anything else gives the visitor back"""
    r = int_row(c, strof(c.run, s))
    if r is None:
        return err(c.ret, visitor)
    return ok(c.ret, visit(c, r[0], visitor, r[1], ret=ty_args(c.ret)[0]))

def float_row(c, s):
    """the float a scalar denotes, or None; forks"""
    if c.branch(inre(s, ZEROPADDED)):
        return None
    ret, c.ret = c.ret, "std::option::Option<f64>"
    r = parse_f64(c, s)
    c.ret = ret
    return r.fields[0] if r.variant == "Some" else None

def plain_row(c, s):
    """(kind, value) of an untagged plain scalar: the whole grammar"""
    if c.branch(z3.Or(s == S(""), inset(s, NULLS))): return "unit", None
    if c.branch(inset(s, TRUES)): return "bool", z3.BoolVal(True)
    if c.branch(inset(s, FALSES)): return "bool", z3.BoolVal(False)
    r = int_row(c, s)
    if r is not None: return r
    f = float_row(c, s)
    if f is not None: return "f64", f
    return "str", s

def visit_text(c, visitor, s, repr, style):
    """lend the text if the input literally holds it, else copy it"""
    b = call(c, "de::parse_borrowed_str", [s, repr, style], ["&str", "std::option::Option<&[u8]>", "libyaml::parser::ScalarStyle"], "std::option::Option<&str>")
    if c.case(b) == "Some":
        return visit(c, "borrowed_str", visitor, c.field(b, "Some", 0, "&str"))
    return visit(c, "str", visitor, s)

def visit_untagged_scalar(c, visitor, s, repr, style):
    s = strof(c.run, s)
    k, x = plain_row(c, s)
    if k == "unit": return visit(c, "unit", visitor)
    if k == "str": return visit_text(c, visitor, s, repr, style)
    return visit(c, k, visitor, x)

STYLE = "libyaml::parser::ScalarStyle"
def borrowed_start(c, s, repr, style):
    """(condition, text) that may be lent"""

def parse_borrowed_str(c, s, repr, style):
    """lent only if the source text of the scalar ends (before its quote) with exactly the value"""
    s = strof(c.run, s)
    if c.case(repr) == "None": return none(c.ret)
    r = strof(c.run, c.field(repr, "Some", 0, "&[u8]"))
    k = c.case(style)
    if k in ("Literal", "Folded"): return none(c.ret)
    q = 0 if k == "Plain" else 1
    n = z3.Length(r) - q - z3.Length(s)
    return opt(c, z3.And(n >= 0, z3.SubString(r, n, z3.Length(s)) == s), s)

def register(R):
    G = ("C01", "C02", "C03", "C17", "C18")
    for t in ("u64", "u128", "i64", "i128"):
        setargs = lambda t: (lambda run, args: [args[0], radix_fn(t)])
        if t[0] == "u":
            R.add("de::parse_unsigned_int", parse_unsigned_int, G, name="de::parse_unsigned_int <%s>" % t, args=setargs(t), subst={"T": t}, cost=20)
        else:
            R.add("de::parse_signed_int", parse_signed_int, G, name="de::parse_signed_int <%s>" % t, args=setargs(t), subst={"T": t}, cost=20)
            R.add("de::parse_negative_int", parse_negative_int, G, name="de::parse_negative_int <%s>" % t, args=setargs(t), subst={"T": t}, cost=20)
    R.add("de::digits_but_not_number", digits_but_not_number, G)
    R.add("de::parse_null", parse_null, G)
    R.add("de::parse_bool", parse_bool, G)
    R.add("de::parse_f64", parse_f64, G)
    R.add("de::visit_int", visit_int, G + ("C04",), cost=20)
    R.add("de::visit_untagged_scalar", visit_untagged_scalar, G, cost=20)
    R.add("de::parse_borrowed_str", parse_borrowed_str, ("C01", "C15", "C21"),
          args=lambda run, args: run.axiom(run.app("valid_utf8", [strof(run, args[0])], BOOL)))      # a str is
