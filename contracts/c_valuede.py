"""value/de.rs: C18 (a Value as a Deserializer) and how a Value is read (C06, C12)"""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm, c_number as cn, c_tagged as ct
from contracts.c_number import REQ

V, TAGGED, SEQ, MAP, STRING = cv.V, cv.TAGGED, cv.SEQ, cv.MAP, "std::string::String"
D = "value::de::"
RV = RESULT % "<V as serde::de::Visitor>::Value"
UNEXP = "serde::de::Unexpected"

# ------------------------------------------------------------------ reading a Value
def vv(f):
    return lambda c, s, *a: ok(c.ret, f(c, *a))
def vv_some(c, s, d):
    return v_deserialize(c, d)
def v_deserialize(c, d):
    return uninterp(c.run, "Deserializer::deserialize_any", [d, Adt("ValueVisitor", None, [])], c.ret)
def vv_access(kind):
    def f(c, s, a):
        """read as a %s from what remains"""
        et = T(c.ret)[1]
        ty = SEQ if kind == "Seq" else MAP
        dty = "serde::de::value::%sAccessDeserializer<A>" % kind
        d = call(c, "serde::de::value::%sAccessDeserializer::<A>::new" % kind, [a], ["A"], dty)
        r = call(c, "<%s as serde::Deserialize>::deserialize::<%s>" % (ty, dty), [d], [dty], "std::result::Result<%s, %s>" % (ty, et))
        return ok(c.ret, Adt(V, "Sequence" if kind == "Seq" else "Mapping", [cm.q2(c, r, ty)]))
    return f
def vv_enum(c, s, a):
    t = ct.enum_parts(c, a)
    return ok(c.ret, Adt(V, "Tagged", [Ref(c.alloc(t, "box"), (), "box", TAGGED)]))

# ------------------------------------------------------------------ what an error says was found
def unexpected(c, s):
    v = deep(c.run, s)
    k = c.case(v)
    U_ = lambda n, *f: Adt(c.ret, n, list(f))
    if k == "Bool": return U_("Bool", cv.pay(c, v, k))
    if k == "String": return U_("Str", cv.pay(c, v, k))
    if k == "Number":
        n, x = num(c, cv.pay(c, v, k))
        return U_({"PosInt": "Unsigned", "NegInt": "Signed", "Float": "Float"}[n], x)
    return U_(dict(Null="Unit", Sequence="Seq", Mapping="Map", Tagged="Enum")[k])
def unexp(c, v):
    r, c.ret = c.ret, UNEXP
    u = unexpected(c, v)
    c.ret = r
    return u
def error_of(c, kind, x, exp, ret=None):
    """a serde type error: text only, no position"""
    return err(ret or c.ret, new_error(c, "Message", lib.serde_message(c.run, kind, x, exp), none("std::option::Option<error::Pos>")))
def invalid_type(c, s, exp):
    if is_param(c.ret): return uninterp(c.run, "Error::invalid_type", [unexp(c, s), exp], c.ret)
    return error_of(c, "invalid_type", unexp(c, s), exp, RESULT % "!").fields[0]
def not_this(c, v, visitor):
    return error_of(c, "invalid_type", unexp(c, v), c.mkref(visitor, "shared", "V"))

# ------------------------------------------------------------------ sequences and mappings
def access(kind, byref, x, c):
    """the element / entry reader of a collection"""
    a = D + kind + ("Ref" if byref else "") + "Deserializer"
    if kind == "Seq":
        it = Adt("std::slice::Iter<value::Value>" if byref else "std::vec::IntoIter<value::Value>", None, [deep(c.run, x), z3.IntVal(0)])
        return Adt(a, None, [it])
    ity = "mapping::Iter" if byref else "mapping::IntoIter"
    inner = "indexmap::map::%s<value::Value, value::Value>" % short(ity)
    it = Adt(ity, None, [lib3.im_iter(c.run, cm.sub(x, "shared") if byref else cm.im(c, x), inner)])
    o = "std::option::Option<%s>" % ity
    return mkstruct2(c, a, iter=some(o, it) if byref else it, value=none("std::option::Option<%s%s>" % ("&" if byref else "", V)))
import lib3
def mkstruct2(c, ty, **f):
    out = [None] * len(f)
    for n, v in f.items():
        out[fidx(c, ty, n)] = v
    return Adt(ty, None, out)
def fidx(c, ty, name):
    return ["iter", "value"].index(name)
def visit_all(kind, byref):
    aty = D + kind + ("Ref" if byref else "") + "Deserializer"
    what = "fewer elements in " + ("sequence" if kind == "Seq" else "map")
    def f(c, x, visitor):
        """the visitor must read everything: else it is an error giving the whole length"""
        n = (vec_len(c.run, deep(c.run, x)) if kind == "Seq" else lib3.im_len(c.run, cm.im(c, x)))
        cell = c.alloc(access(kind, byref, x, c))
        r = visit(c, "seq" if kind == "Seq" else "map", visitor, Ref(cell, (), "mut", aty))
        if c.case(r) == "Err": return r
        if not c.branch(left(c, kind, byref, cell) == 0):
            return error_of(c, "invalid_length", n, c.mkref(S(what)))
        return r
    return f
def left(c, kind, byref, cell):
    aty = D + kind + ("Ref" if byref else "") + "Deserializer"
    a = c.load(cell)
    if kind == "Seq":
        t = "std::slice::Iter<value::Value>" if byref else "std::vec::IntoIter<value::Value>"
        m = "<%s as std::iter::ExactSizeIterator>::len" % t
        return call(c, m, [Ref(cell, ((None, 0, t),), "shared", t)], ["&" + t], "usize")
    t = "mapping::Iter" if byref else "mapping::IntoIter"
    if byref:
        o = c.field(a, None, 0, "std::option::Option<%s>" % t)
        if c.case(o) == "None": c.panic("unwrap")
        v = c.field(o, "Some", 0, t)
    else:
        v = c.field(a, None, 0, t)
    return call(c, "<%s as std::iter::ExactSizeIterator>::len" % t, [c.mkref(v, "shared", t)], ["&" + t], "usize")

SELF = lambda byref: ("&" if byref else "")
def subref(c, byref, v, k):
    """the content of a value, as the deserializer holds it"""
    x = cv.pay(c, v, k)
    if k == "Tagged": return c.mkref(deep(c.run, x), "shared", TAGGED) if byref else deep(c.run, x)
    if byref and not is_z3(x): return c.mkref(deep(c.run, x), "shared", cv.PAY[k])
    return deep(c.run, x) if isinstance(x, Ref) and x.kind != "box" else x
def str_visit(byref): return "borrowed_str" if byref else "string"
def collection(c, kind, byref, x, visitor):
    name = "value::de::visit_%s%s" % ("sequence" if kind == "Seq" else "mapping", "_ref" if byref else "")
    t = SEQ if kind == "Seq" else MAP
    return call(c, name + "::<V>", [x, visitor], [("&" if byref else "") + t, "V"], c.ret)
def d_any(byref):
    def f(c, s, visitor):
        """each kind is announced as itself; nothing is converted"""
        v = deep(c.run, s)
        k = c.case(v)
        if k == "Null": return visit(c, "unit", visitor)
        x = subref(c, byref, v, k)
        if k == "Bool": return visit(c, "bool", visitor, x)
        if k == "Number": return cn.de_any(c, x, visitor)
        if k == "String": return visit(c, str_visit(byref), visitor, x)
        if k == "Sequence": return collection(c, "Seq", byref, x, visitor)
        if k == "Mapping": return collection(c, "Map", byref, x, visitor)
        return visit(c, "enum", visitor, x)
    return f
def under(c, s):
    v = cv.untagged(c.run, s)
    return c.case(v), v
def d_bool(byref):
    def f(c, s, visitor):
        """a boolean, tagged or not"""
        k, v = under(c, s)
        return visit(c, "bool", visitor, cv.pay(c, v, k)) if k == "Bool" else not_this(c, v, visitor)
    return f
def d_number(c, s, visitor):
    """a number, tagged or not, whatever type of number is asked for"""
    k, v = under(c, s)
    return cn.de_any(c, cv.pay(c, v, k), visitor) if k == "Number" else not_this(c, v, visitor)
def d_str(byref):
    def f(c, s, visitor):
        """a text, tagged or not"""
        k, v = under(c, s)
        return visit(c, str_visit(byref), visitor, cv.pay(c, v, k)) if k == "String" else not_this(c, v, visitor)
    return f
def d_bytes(byref):
    def f(c, s, visitor):
        """a text or a sequence"""
        k, v = under(c, s)
        if k == "String": return visit(c, str_visit(byref), visitor, cv.pay(c, v, k))
        if k == "Sequence": return collection(c, "Seq", byref, subref(c, byref, v, k), visitor)
        return not_this(c, v, visitor)
    return f
def d_option(byref):
    def f(c, s, visitor):
        """only null is None; the value itself (with its tags) is the content of Some"""
        v = deep(c.run, s)
        return visit(c, "none", visitor) if c.branch(c.is_variant(v, "Null")) else visit(c, "some", visitor, s)
    return f
def d_unit(byref):
    def f(c, s, visitor):
        v = deep(c.run, s)
        return visit(c, "unit", visitor) if c.branch(c.is_variant(v, "Null")) else not_this(c, v, visitor)
    return f
def d_newtype(c, s, name, visitor):
    """transparent"""
    return visit(c, "newtype_struct", visitor, s)
def d_coll(kind, byref):
    K = "Sequence" if kind == "Seq" else "Mapping"
    def f(c, s, visitor):
        """such a collection, tagged or not; null is the empty one"""
        k, v = under(c, s)
        if k == K: return collection(c, kind, byref, subref(c, byref, v, k), visitor)
        if k == "Null":
            if byref and kind == "Map":
                a = D + "MapRefDeserializer"
                return visit(c, "map", visitor, c.mkref(mkstruct2(c, a, iter=none("std::option::Option<mapping::Iter>"), value=none("std::option::Option<&%s>" % V)), "mut", a))
            e = call(c, "std::vec::Vec::<value::Value>::new", [], [], SEQ) if kind == "Seq" else cm.mkmap(lib3.im_empty(c.run))
            return collection(c, kind, byref, c.mkref(e, "shared", SEQ if kind == "Seq" else MAP) if byref else e, visitor)
        return not_this(c, v, visitor)
    return f
def d_enum(byref):
    A = D + ("EnumRefDeserializer" if byref else "EnumDeserializer")
    OV = "std::option::Option<%s%s>" % ("&" if byref else "", V)
    def f(c, s, name, variants, visitor):
        """a tag names the variant of its content; a text names a unit variant"""
        v = deep(c.run, s)
        k = c.case(v)
        if k == "Tagged":
            t = deep(c.run, cv.pay(c, v, k))
            x = ct.tv_field(c, t, 1)
            a = [ct.name(c, ct.tv_field(c, t, 0)), some(OV, c.mkref(x, "shared", V) if byref else x)]
        elif k == "String":
            a = [cv.pay(c, v, k), none(OV)]
        else:
            return error_of(c, "invalid_type", unexp(c, v), c.mkref(S("a Value::Tagged enum")))
        return visit(c, "enum", visitor, Adt(A, None, a))
    return f
def d_ignored(c, s, visitor): return visit(c, "unit", visitor)
def last(f):
    return lambda c, s, *r: f(c, s, r[-1])

# ------------------------------------------------------------------ enum and variant access
def e_variant_seed(byref):
    def f(c, s, sd):
        """the variant is named by the tag text"""
        n = strof(c.run, c.field(s, None, 0, "&str"))
        P = "Borrowed" if byref else ""
        d = uninterp(c.run, P + "StrDeserializer::new", [n], "serde::de::value::%sStrDeserializer<error::Error>" % P)
        x = q(c, uninterp(c.run, "DeserializeSeed::deserialize", [sd, d], RESULT % tuple_tys(T(c.ret)[0])[0]))
        OV = "std::option::Option<%s%s>" % ("&" if byref else "", V)
        return ok(c.ret, Adt(T(c.ret)[0], None, [x, Adt(D + "Variant%sDeserializer" % ("Ref" if byref else ""), None, [c.field(s, None, 1, OV)])]))
    return f
def vd(byref, unit, inner, what=None):
    OV = "std::option::Option<%s%s>" % ("&" if byref else "", V)
    def f(c, s, *rest):
        """with content: what the content is as that kind of variant; without: a unit variant only"""
        o = c.field(s, None, 0, OV)
        if c.case(o) == "Some":
            return inner(c, c.field(o, "Some", 0, ("&" if byref else "") + V), *rest)
        if unit: return ok(c.ret, UNIT)
        return error_of(c, "invalid_type", Adt(UNEXP, "UnitVariant", []), c.mkref(S(what)))
    return f

# ------------------------------------------------------------------ element and entry access
def n_element(byref):
    T_ = "std::slice::Iter<value::Value>" if byref else "std::vec::IntoIter<value::Value>"
    def f(c, s, sd):
        """the elements in order, each once"""
        r = Ref(s.cell, s.path + ((None, 0, T_),), "mut", T_)
        o = call(c, "<%s as std::iter::Iterator>::next" % T_, [r], ["&mut " + T_], "std::option::Option<%s%s>" % ("&" if byref else "", V))
        if c.case(o) == "None": return ok(c.ret, none(T(c.ret)[0]))
        return some_seed(c, sd, c.field(o, "Some", 0, ("&" if byref else "") + V))
    return f
def some_seed(c, sd, v):
    t = T(T(c.ret)[0])[0]
    r = uninterp(c.run, "DeserializeSeed::deserialize", [sd, v], RESULT % t)
    return ok(c.ret, some(T(c.ret)[0], q(c, r)))
def n_key(byref):
    T_ = "mapping::Iter" if byref else "mapping::IntoIter"
    R_ = "&" if byref else ""
    P = "(%svalue::Value, %svalue::Value)" % (R_, R_)
    def f(c, s, sd):
        """the keys in order; the value is kept for next_value_seed"""
        r = Ref(s.cell, s.path + ((None, 0, T_),), "mut", T_)
        if byref:
            O_ = "std::option::Option<mapping::Iter>"
            o = c.load(s.cell, s.path + ((None, 0, O_),))
            if c.case(o) == "None": return ok(c.ret, none(T(c.ret)[0]))
            r = Ref(s.cell, s.path + ((None, 0, O_), ("Some", 0, T_)), "mut", T_)
        o = call(c, "<%s as std::iter::Iterator>::next" % T_, [r], ["&mut " + T_], "std::option::Option<%s>" % P)
        if c.case(o) == "None": return ok(c.ret, none(T(c.ret)[0]))
        p = c.field(o, "Some", 0, P)
        OV = "std::option::Option<%s%s>" % (R_, V)
        c.store(s.cell, s.path + ((None, 1, OV),), some(OV, c.field(p, None, 1, R_ + V)))
        return some_seed(c, sd, c.field(p, None, 0, R_ + V))
    return f
def n_value(byref):
    OV = "std::option::Option<%s%s>" % ("&" if byref else "", V)
    def f(c, s, sd):
        """the value of the last key; panics when there is none"""
        p = s.path + ((None, 1, OV),)
        o = c.load(s.cell, p)
        k = c.case(o)
        c.store(s.cell, p, none(OV))
        if k == "None": c.panic("visit_value called before visit_key")
        return uninterp(c.run, "DeserializeSeed::deserialize", [sd, c.field(o, "Some", 0, ("&" if byref else "") + V)], c.ret)
    return f
def n_hint(kind, byref):
    def f(c, s):
        """exact"""
        if kind == "Map" and byref:
            o = c.field(c.load(s.cell, s.path), None, 0, "std::option::Option<mapping::Iter>")
            if c.case(o) == "None": return none(c.ret)
        a = c.alloc(c.load(s.cell, s.path))
        return some(c.ret, left(c, kind, byref, a))
    return f
def s_any(byref):
    def f(c, s, visitor):
        """a non-empty sequence, all of whose elements must be read; an empty one is a unit"""
        cell = c.alloc(s)
        n = left(c, "Seq", byref, cell)
        if c.branch(n == 0): return visit(c, "unit", visitor)
        aty = D + "Seq%sDeserializer" % ("Ref" if byref else "")
        r = visit(c, "seq", visitor, Ref(cell, (), "mut", aty))
        if c.case(r) == "Err": return r
        if not c.branch(left(c, "Seq", byref, cell) == 0):
            return error_of(c, "invalid_length", n, c.mkref(S("fewer elements in sequence")))
        return r
    return f
def m_any(c, s, visitor): return visit(c, "map", visitor, s)

def register(R):
    C = ("C18",)
    W = "<ValueVisitor as Visitor>::"
    mkv = lambda k: vv(lambda c, *a: Adt(V, k, list(a)))
    R.add("<Value as Deserialize>::deserialize", v_deserialize, C + ("C12",))
    R.add(W + "expecting", lambda c, s, f: write(c, f, "any YAML value"), C)
    R.add(W + "visit_bool", mkv("Bool"), C + ("C12",))
    for n, t in (("i64", 0), ("u64", 0)):
        R.add(W + "visit_" + n, vv(lambda c, i: Adt(V, "Number", [int_number(c, i)])), C + ("C12", "C04"))
    R.add(W + "visit_f64", vv(lambda c, x: Adt(V, "Number", [cn.from_float(c, x)])), C + ("C12", "C04"))
    for n in ("str", "string"):
        R.add(W + "visit_" + n, vv(lambda c, s: Adt(V, "String", [strof(c.run, s)])), C + ("C12",))
    for n in ("unit", "none"):
        R.add(W + "visit_" + n, mkv("Null"), C + ("C12",))
    R.add(W + "visit_some", vv_some, C, modular=False)
    R.add(W + "visit_seq", vv_access("Seq"), C, modular=False)
    R.add(W + "visit_map", vv_access("Map"), C, modular=False)
    R.add(W + "visit_enum", vv_enum, C + ("C06",), modular=False)
    R.add("Value::deserialize_number", d_number, C)
    for kind, n in (("Seq", "sequence"), ("Map", "mapping")):
        for b in (False, True):
            R.add("value::de::visit_%s%s" % (n, "_ref" if b else ""), visit_all(kind, b), C, opaque=True, panics=b and kind == "Map")
    nums = "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64".split()
    for b in (False, True):
        P = "<%sValue as Deserializer>::deserialize_" % SELF(b)
        add = lambda n, f: R.add(P + n, f, C, modular=False)
        add("any", d_any(b)); add("bool", d_bool(b))
        for n in nums: add(n, d_number)
        for n in ("char", "str", "string", "identifier"): add(n, d_str(b))
        for n in ("bytes", "byte_buf"): add(n, d_bytes(b))
        add("option", d_option(b)); add("unit", d_unit(b)); add("unit_struct", last(d_unit(b))); add("newtype_struct", d_newtype)
        for n in ("seq", "tuple", "tuple_struct"): add(n, last(d_coll("Seq", b)))
        for n in ("map", "struct"): add(n, last(d_coll("Map", b)))
        add("enum", d_enum(b)); add("ignored_any", d_ignored)
        R_ = "Ref" if b else ""
        R.add("<Enum%sDeserializer as EnumAccess>::variant_seed" % R_, e_variant_seed(b), C, modular=False)
        VD = "<Variant%sDeserializer as VariantAccess>::" % R_
        R.add(VD + "unit_variant", vd(b, True, ct.va_unit), C, modular=False)
        R.add(VD + "newtype_variant_seed", vd(b, False, ct.va_newtype, "newtype variant"), C, modular=False)
        R.add(VD + "tuple_variant", vd(b, False, ct.va_access("Sequence", SEQ, b, "tuple variant"), "tuple variant"), C, modular=False)
        R.add(VD + "struct_variant", vd(b, False, ct.va_access("Mapping", MAP, b, "struct variant"), "struct variant"), C, modular=False)
        R.add("<Seq%sDeserializer as SeqAccess>::next_element_seed" % R_, n_element(b), C, modular=False)
        R.add("<Map%sDeserializer as MapAccess>::next_key_seed" % R_, n_key(b), C, modular=False)
        R.add("<Map%sDeserializer as MapAccess>::next_value_seed" % R_, n_value(b), C, modular=False, panics=True)
        R.add("<Seq%sDeserializer as SeqAccess>::size_hint" % R_, n_hint("Seq", b), C, modular=False)
        R.add("<Map%sDeserializer as MapAccess>::size_hint" % R_, n_hint("Map", b), C, modular=False)
        for kind, f in (("Seq", s_any(b)), ("Map", m_any)):
            P = "<%s%sDeserializer as Deserializer>::deserialize_" % (kind, R_)
            for n in REQ:
                if n in ("ignored_any", "i128", "u128"): continue
                R.add(P + n, last(f), C, modular=False)
            R.add(P + "ignored_any", d_ignored, C, modular=False)
    R.add("Value::unexpected", unexpected, C + ("C16",))
    R.add("Value::invalid_type", invalid_type, C + ("C16",))
