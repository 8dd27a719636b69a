"""number.rs: C03 C04 C05 C18 C22"""
from contracts.dsl import *

def n_inv(run, v, variant, i, r):
    """a NegInt is negative: N is private to number.rs, and every function there that makes one is under contract"""
    if variant == "NegInt" and v.ty == "number::N":
        run.axiom(z3.Implies(run.discr(v) == run.discr_of(v.ty, "NegInt"), r < 0))
vc.TYPE_INV["N"] = n_inv

# ---- accessors
def is_i64(c, s):
    k, x = num(c, s)
    return z3.BoolVal(False) if k == "Float" else x <= I64[1]
def is_u64(c, s):
    k, x = num(c, s)
    return z3.BoolVal(False) if k == "Float" else x >= 0
def is_f64(c, s):
    return z3.BoolVal(num(c, s)[0] == "Float")
def as_i64(c, s):
    k, x = num(c, s)
    return none(c.ret) if k == "Float" else opt(c, x <= I64[1], x)
def as_u64(c, s):
    k, x = num(c, s)
    return none(c.ret) if k == "Float" else opt(c, x >= 0, x)
def as_f64(c, s):
    k, x = num(c, s)
    return some(c.ret, x if k == "Float" else exe.i2f(c.run, x, "f64"))
def is_nan(c, s):
    k, x = num(c, s)
    return z3.fpIsNaN(x) if k == "Float" else z3.BoolVal(False)
def is_infinite(c, s):
    k, x = num(c, s)
    return z3.fpIsInf(x) if k == "Float" else z3.BoolVal(False)
def is_finite(c, s):
    k, x = num(c, s)
    return z3.Not(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x))) if k == "Float" else z3.BoolVal(True)

# ---- construction
def from_int(c, i):
    """integers have one canonical form: NegInt below zero, PosInt from zero on, exactly that value"""
    return int_number(c, i)
def from_float(c, f):
    if f.sort() == F32:
        f = z3.fpFPToFP(z3.RNE(), f, F64)
    return mknum("Float", f)

# ---- text
def number_text(c, k, x):
    if k != "Float":
        return int_text(x)
    if c.branch(z3.fpIsNaN(x)):
        return S(".nan")
    if c.branch(z3.fpIsInf(x)):
        return S("-.inf") if c.branch(z3.fpIsNegative(x)) else S(".inf")
    return ryu_text(c.run, x)
def display(c, s, f):
    """prints the decimal integer, .nan, .inf, -.inf or the shortest float text"""
    k, x = num(c, s)
    return write(c, f, number_text(c, k, x))

# ---- laws
def neq(c, a, b):
    (k, x), (l, y) = num(c, a), num(c, b)
    if k != l:
        return z3.BoolVal(False)
    if k != "Float":
        return x == y
    return z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))
def nord(c, a, b, total):
    """None: unordered"""
    (k, x), (l, y) = num(c, a), num(c, b)
    O = lib.ordering
    if (k == "Float") != (l == "Float"):
        return O("Less") if l == "Float" else O("Greater")
    if k == "Float":
        if c.branch(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))): return O("Equal")
        if c.branch(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))):
            if not total: return None
            return O("Greater") if c.branch(z3.fpIsNaN(x)) else O("Less")      # NaN last
        i = c.choose([z3.fpLT(x, y), z3.fpEQ(x, y), z3.fpGT(x, y)])
    else:
        i = c.choose([x < y, x == y, x > y])
    return O(["Less", "Equal", "Greater"][i])
def n_partial_cmp(c, a, b):
    o = nord(c, a, b, False)
    return none(c.ret) if o is None else some(c.ret, o)
def n_total_cmp(c, a, b):
    return nord(c, a, b, True)
def n_eq_n(c, a, b):
    return neq(c, wrapn(c, a), wrapn(c, b))
def wrapn(c, a):
    return Adt("number::Number", None, [deep(c.run, a)])
def hash_(c, s, st):
    """equal Numbers feed the hasher the same: integers their value, every float the same constant"""
    k, x = num(c, s)
    t = {"PosInt": "u64", "NegInt": "i64", "Float": "i32"}[k]
    return uninterp(c.run, "hash:" + t, [z3.IntVal(3) if k == "Float" else x, st], "()")

# ---- serde
def ser(c, s, z):
    k, x = num(c, s)
    return serialize(c, {"PosInt": "u64", "NegInt": "i64", "Float": "f64"}[k], z, x)
def visitor_num(c, s, v):
    if is_z3(v) and z3.is_fp(v):
        return ok(c.ret, mknum("Float", v))
    return ok(c.ret, int_number(c, v))
def de_any(c, s, v, *rest):
    """any request is answered with the exact number: u64, i64 or f64"""
    k, x = num(c, s)
    return visit(c, {"PosInt": "u64", "NegInt": "i64", "Float": "f64"}[k], v, x)
def de_visitor_last(c, s, *rest):
    return de_any(c, s, rest[-1])
def unexpected(c, s):
    k, x = num(c, s)
    return Adt(c.ret, {"PosInt": "Unsigned", "NegInt": "Signed", "Float": "Float"}[k], [x])

def from_str(c, s):
    """the integer row (an integer beyond 64 bits is an error), else the float row, else an error"""
    from contracts import c_scalar as cs
    s = strof(c.run, s)
    r = cs.int_row(c, s)
    if r is not None:
        if r[0] in ("u64", "i64"): return ok(c.ret, int_number(c, r[1]))
        return err(c.ret, uninterp(c.run, "default Visitor::visit_" + r[0], [Adt("number::NumberVisitor", None, []), r[1]], ERR))
    f = cs.float_row(c, s)
    if f is not None: return ok(c.ret, from_float(c, f))
    return err(c.ret, new_error(c, "FailedToParseNumber"))

REQ = "bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any any".split()

def register(R):
    for n, f in dict(is_i64=is_i64, is_u64=is_u64, is_f64=is_f64, as_i64=as_i64, as_u64=as_u64, as_f64=as_f64, is_nan=is_nan, is_infinite=is_infinite, is_finite=is_finite).items():
        R.add("Number::" + n, f, ("C04", "C22"))
    for t in "i8 i16 i32 i64 isize u8 u16 u32 u64 usize".split():
        R.add("<Number as From>::from (%s)" % t, from_int, ("C04", "C22", "C17"))
    for t in ("<f32>", "<f64>"):
        R.add("<Number as From>::from " + t, from_float, ("C04", "C22", "C17"))
    R.add("<Number as Display>::fmt", display, ("C04", "C03"), modular=False)
    R.add("<Number as PartialEq>::eq", neq, ("C05", "C04"))
    R.add("<N as PartialEq>::eq", n_eq_n, ("C05",), modular=False)
    R.add("<Number as PartialOrd>::partial_cmp", n_partial_cmp, ("C05",))
    R.add("Number::total_cmp", n_total_cmp, ("C05",))
    R.add("<Number as Hash>::hash", hash_, ("C05",))
    R.add("<Number as Serialize>::serialize", ser, ("C03", "C17"), modular=False)
    for t in ("i64", "u64", "f64"):
        R.add("<NumberVisitor as Visitor>::visit_" + t, visitor_num, ("C03", "C04", "C18"), modular=False)
    for t in REQ:
        R.add("<Number as Deserializer>::deserialize_" + t, de_visitor_last, ("C18",), modular=t == "any")
        R.add("<&Number as Deserializer>::deserialize_" + t, de_visitor_last, ("C18",), modular=t == "any")
    R.add("number::unexpected", unexpected, ("C18", "C16"), modular=False)
    R.add("<Number as FromStr>::from_str", from_str, ("C01", "C04"), modular=False, cost=10)
    R.add("<NumberVisitor as Visitor>::expecting", lambda c, s, f: write(c, f, "a number"), ("C04",))
    R.add("<Number as Deserialize>::deserialize", lambda c, d: uninterp(c.run, "Deserializer::deserialize_any", [d, Adt("number::NumberVisitor", None, [])], c.ret), ("C04", "C18"), modular=False)
    laws(R)

# ------------------------------------------------------------------ lemmas over the contracts
def sym(c, name):
    n = c.const(name, "number::Number")
    c.assume(num_inv(c.run, n))
    return n
def laws(R):
    def equivalence(c):
        a, b, d = sym(c, "a"), sym(c, "b"), sym(c, "d")
        c.oblige("reflexive", neq(c, a, a))
        ab = neq(c, a, b)
        c.oblige("symmetric", ab == neq(c, b, a))
        c.oblige("transitive", z3.Implies(z3.And(ab, neq(c, b, d)), neq(c, a, d)))
    R.lemma("Number: equality is an equivalence", ("C05",), equivalence)
    def order(c):
        a, b, d = sym(c, "a"), sym(c, "b"), sym(c, "d")
        for total in (False, True):
            nm = "total" if total else "partial"
            v = lambda o: "None" if o is None else o.variant
            ab, ba, bd, ad = v(nord(c, a, b, total)), v(nord(c, b, a, total)), v(nord(c, b, d, total)), v(nord(c, a, d, total))
            c.oblige(nm + ": antisymmetric", z3.BoolVal(ba == {"Less": "Greater", "Greater": "Less"}.get(ab, ab)))
            c.oblige(nm + ": Equal exactly for equal values", z3.BoolVal(ab == "Equal") == neq(c, a, b))
            c.oblige(nm + ": transitive", z3.BoolVal(not (ab == bd and ab in ("Less", "Greater", "Equal")) or ad == ab))
            if ab == "Equal": c.oblige(nm + ": equal values compare alike", z3.BoolVal(ad == bd))
            if total: c.oblige("total", z3.BoolVal(ab != "None"))
    R.lemma("Number: orders are antisymmetric, transitive and agree with equality", ("C05",), order, cost=3)
    def hashes(c):
        a, b = sym(c, "a"), sym(c, "b")
        c.assume(neq(c, a, b))
        (k, x), (l, y) = num(c, a), num(c, b)
        c.oblige("equal values feed the hasher alike", z3.And(z3.BoolVal(k == l), z3.BoolVal(True) if k == "Float" else x == y))
    R.lemma("Number: equal values hash alike", ("C05",), hashes)
    def canonical(c):
        x, y = c.const("x", "i128"), c.const("y", "i128")
        for v in (x, y): c.assume(z3.And(v >= I64[0], v <= U64[1]))
        a, b = int_number(c, x), int_number(c, y)
        c.oblige("equal integers are equal Numbers and only those", neq(c, a, b) == (x == y))
        c.oblige("the invariant holds", num_inv(c.run, a))
    R.lemma("Number: integers have one canonical form", ("C04", "C05"), canonical)
    def accessors(c):
        a = sym(c, "a")
        c.ret = "std::option::Option<i64>"
        i, u, f = as_i64(c, a), as_u64(c, a), as_f64(c, a)
        c.oblige("is_i64 agrees", is_i64(c, a) == z3.BoolVal(i.variant == "Some"))
        c.oblige("is_u64 agrees", is_u64(c, a) == z3.BoolVal(u.variant == "Some"))
        c.oblige("as_f64 always answers", z3.BoolVal(f.variant == "Some"))
        if i.variant == "Some" and u.variant == "Some":
            c.oblige("both integers agree", i.fields[0] == u.fields[0])
        k, x = num(c, a)
        if k == "Float":
            c.oblige("floats", z3.And(z3.BoolVal(i.variant == "None" and u.variant == "None"), f.fields[0] == x, z3.Not(z3.And(is_nan(c, a), is_finite(c, a)))))
        else:
            c.oblige("an integer has an integer accessor", z3.BoolVal(i.variant == "Some" or u.variant == "Some"))
    R.lemma("Number: accessors agree with the predicates", ("C04",), accessors)
