"""value/tagged.rs: C06, C05 (tags), C18 (enums from values), C17/C03 (tag detection)"""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm, c_scalar as cs
import lib3

V, TAG, TAGGED, STRING = cv.V, cv.TAG, cv.TAGGED, "std::string::String"
VRES = "<V as serde::de::Visitor>::Value"

def nobang_text(c, s):
    """the text without one leading !, unless nothing would be left"""
    return z3.If(z3.And(z3.PrefixOf(S("!"), s), s != S("!")), cs.drop(s, 1), s)
def nobang(c, s):
    return nobang_text(c, strof(c.run, s))
def raw(c, t):
    return strof(c.run, c.field(deep(c.run, t), None, 0, STRING))
def name(c, t):
    """what a Tag means"""
    return nobang_text(c, raw(c, t))

def tag_new(c, s):
    """panics exactly on the empty tag"""
    t = strof(c.run, s) if c.tys[0] in STRTY else uninterp(c.run, "Into::into", [s], STRING)
    if c.branch(t == S("")): c.panic("empty YAML tag is not allowed")
    return Adt(TAG, None, [t])
def tag_eq(c, a, b): return name(c, a) == name(c, b)
def tag_eq_any(c, a, b):
    return name(c, a) == nobang_text(c, strof(c.run, uninterp(c.run, "AsRef::as_ref", [b], "&str")))
def tag_cmp(c, a, b):
    return call(c, "<str as std::cmp::Ord>::cmp", [name(c, a), name(c, b)], ["&str", "&str"], "std::cmp::Ordering")
def tag_partial_cmp(c, a, b):
    r, c.ret = c.ret, "std::cmp::Ordering"
    o = tag_cmp(c, a, b)
    return some(r, o)
def tag_hash(c, a, h):
    return uninterp(c.run, "hash:str", [name(c, a), h], "()")
def tag_display(c, a, f):
    """! and the name"""
    r = write(c, f, "!")
    if c.case(r) == "Err": return r
    return write(c, f, name(c, a))

# ------------------------------------------------------------------ TaggedValue
def tv_field(c, t, i, mut=None):
    return c.field(deep(c.run, t), None, i, TAG if i == 0 else V)
def tv_serialize(c, t, s):
    """a map of one entry: the tag's text, the value"""
    r = uninterp(c.run, "Serializer::serialize_map", [s, some("std::option::Option<usize>", z3.IntVal(1))], "std::result::Result<%s, <S as serde::Serializer>::Error>" % cm.SM)
    ms = cm.q2(c, r, cm.SM)
    cell = c.alloc(ms)
    key = c.mkref(Adt("SerializeTag", None, [c.mkref(tv_field(c, t, 0), "shared", TAG)]), "shared", "SerializeTag")
    r = lib3.ser_entry(c.run, Ref(cell, (), "mut", cm.SM), key, c.mkref(tv_field(c, t, 1), "shared", V), "std::result::Result<(), <S as serde::Serializer>::Error>")
    cm.q2(c, r, "()")
    return cm.ser_end(c, c.load(cell))
def st_serialize(c, s, ser):
    """the tag's Display text"""
    return uninterp(c.run, "Serializer::collect_str", [ser, c.field(deep(c.run, s), None, 0, "&" + TAG)], c.ret)
def tv_deserialize(c, d):
    return uninterp(c.run, "Deserializer::deserialize_any", [d, Adt("TaggedValueVisitor", None, [])], c.ret)
def enum_parts(c, data):
    """(tag, content) of an enum"""
    et = T(c.ret)[1]
    A = "<A as serde::de::EnumAccess>::Variant"
    pair = cm.q2(c, uninterp(c.run, "EnumAccess::variant_seed", [data, Adt("value::tagged::TagStringVisitor", None, [])], "std::result::Result<(%s, %s), %s>" % (TAG, A, et)), "(%s, %s)" % (TAG, A))
    tag, contents = c.field(pair, None, 0, TAG), c.field(pair, None, 1, A)
    v = cm.q2(c, uninterp(c.run, "VariantAccess::newtype_variant", [contents], "std::result::Result<%s, %s>" % (V, et)), V)
    return Adt(TAGGED, None, [tag, v])
def tv_visit_enum(c, s, data):
    return ok(c.ret, enum_parts(c, data))
def tv_de(c, t, visitor):
    """as an enum, whatever is asked for"""
    return visit(c, "enum", visitor, t)
def tv_ignored(c, t, visitor):
    return visit(c, "unit", visitor)
def tv_variant_seed(byref):
    def f(c, t, sd):
        """the variant is named by the tag without !; its payload is the value"""
        n = name(c, tv_field(c, t, 0))
        T0 = "serde::de::value::%sStrDeserializer<error::Error>" % ("Borrowed" if byref else "")
        d = uninterp(c.run, "%sStrDeserializer::new" % ("Borrowed" if byref else ""), [n], T0)
        r = uninterp(c.run, "DeserializeSeed::deserialize", [sd, d], RESULT % tuple_tys(T(c.ret)[0])[0])
        x = q(c, r)
        v = tv_field(c, t, 1)
        return ok(c.ret, Adt(T(c.ret)[0], None, [x, c.mkref(v, "shared", V) if byref else v]))
    return f

# ------------------------------------------------------------------ the payload of a variant
def va_unit(c, v):
    return call(c, "<() as serde::Deserialize>::deserialize::<D>", [v], [c.tys[0]], c.ret)
def va_newtype(c, v, sd):
    return uninterp(c.run, "DeserializeSeed::deserialize", [sd, v], c.ret)
def va_access(K, P, byref, what):
    D = "value::de::%s%sDeserializer" % ("Seq" if K == "Sequence" else "Map", "Ref" if byref else "")
    def f(c, v, *rest):
        """a %s, read by the visitor; anything else is a type error"""
        visitor = rest[-1]
        x = deep(c.run, v)
        if c.case(x) == K:
            p = c.field(x, K, 0, P)
            a = call(c, D + "::new", [c.mkref(p, "shared", P) if byref else p], [("&" if byref else "") + P], D)
            return call(c, "<%s as serde::Deserializer>::deserialize_any::<V>" % D, [a, visitor], [D, "V"], c.ret)
        u = call(c, "value::Value::unexpected", [c.mkref(x, "shared", V)], ["&" + V], "serde::de::Unexpected")
        return err(c.ret, serde_error(c, "invalid_type", u, S(what)))
    return f
def serde_error(c, kind, x, exp):
    return new_error(c, "Message", lib.serde_message(c.run, kind, x, c.mkref(exp)), none("std::option::Option<error::Pos>"))

def ts_visit_str(c, s, x):
    """the text is the tag; the empty text is an error"""
    t = strof(c.run, x)
    if c.branch(t == S("")):
        return err(c.ret, uninterp(c.run, "Error::custom", [S("empty YAML tag is not allowed")], "E"))
    return ok(c.ret, Adt(TAG, None, [t]))
def ts_deserialize(c, s, d):
    return uninterp(c.run, "Deserializer::deserialize_string", [d, s], c.ret)

# ------------------------------------------------------------------ is this text a tag?
CFT = "value::tagged::check_for_tag::CheckForTag"
def text_of_state(c, x):
    k = c.case(x)
    if k == "Empty": return S("")
    if k == "Bang": return S("!")
    p = strof(c.run, c.field(x, k, 0, STRING))
    return z3.Concat(S("!"), p) if k == "Tag" else p
def cft_inv(c, x):
    """what the states mean: nothing yet; a first piece that is !; that and exactly one more piece; anything else"""
    k = c.case(x)
    return z3.Length(strof(c.run, c.field(x, k, 0, STRING))) > 0 if k in ("Tag", "NotTag") else z3.BoolVal(True)
def cft_write(c, s, x):
    """a tag is what is written as exactly two pieces, the first being a lone !"""
    t = strof(c.run, x)
    cur = c.load(s.cell, s.path)
    if not c.branch(t == S("")):
        k = c.case(cur)
        if k == "Empty":
            new = Adt(cur.ty, "Bang", []) if c.branch(t == S("!")) else Adt(cur.ty, "NotTag", [t])
        elif k == "Bang":
            new = Adt(cur.ty, "Tag", [t])
        else:
            new = Adt(cur.ty, "NotTag", [z3.Concat(text_of_state(c, cur), t)])
        c.store(s.cell, s.path, new)
    return ok(c.ret, UNIT)

def sctx(run):
    from engine import SpecCtx
    return SpecCtx(run, [], None)
lib2.WRITERS[CFT] = (lambda run, x: cft_inv(sctx(run), x), lambda run, x: text_of_state(sctx(run), x))
def check_tag(c, x):
    """what its Display writes, sorted into a tag or not; the text is kept either way"""
    d = deep(c.run, x)
    st = lib2.written_state(c.run, Adt(CFT, "Empty", []), display_text(c.run, None, T1(c.tys[0]), c.load(x.cell, x.path) if isinstance(x, Ref) else x), lib2.fmt_id(c.run, x))
    k = c.case(st)
    if k == "Tag": return Adt(c.ret, "Tag", [strof(c.run, c.field(st, k, 0, STRING))])
    return Adt(c.ret, "NotTag", [text_of_state(c, st)])
def T1(t): return re.sub(r"^&", "", t)

def register(R):
    C = ("C06",)
    R.add("value::tagged::check_for_tag", check_tag, ("C06", "C17", "C03"))
    R.assume(("C06", "C17", "C03"), "a Display implementation of the client fails only when its sink does (the documented contract of fmt::Error); what a local fmt::Write holds after a value is written follows by induction over the pieces from write_str's contract")
    R.add("value::tagged::nobang", nobang, ("C06", "C05"))
    R.add("Tag::new", tag_new, C, panics=True)
    TT = "(&value::tagged::Tag, &value::tagged::Tag)"
    R.add("<Tag as PartialEq>::eq " + TT, tag_eq, ("C06", "C05"))
    R.add("<Tag as PartialEq>::eq <T>", tag_eq_any, ("C06",))
    F = " in src/value/tagged.rs"
    R.add("<Tag as Ord>::cmp" + F, tag_cmp, ("C06", "C05"))
    R.add("<Tag as PartialOrd>::partial_cmp" + F, tag_partial_cmp, ("C06", "C05"))
    R.add("<Tag as Hash>::hash", tag_hash, ("C06", "C05"))
    R.add("<Tag as Display>::fmt", tag_display, ("C06", "C17"))
    R.add("<Tag as Debug>::fmt" + F, tag_display, ("C06",))
    R.add("<TaggedValue as Serialize>::serialize", tv_serialize, ("C06", "C17", "C02"), modular=False)
    R.add("<SerializeTag as Serialize>::serialize", st_serialize, ("C06", "C17"), modular=False)
    R.add("<TaggedValue as Deserialize>::deserialize", tv_deserialize, C, modular=False)
    R.add("<TaggedValueVisitor as Visitor>::expecting", lambda c, s, f: write(c, f, "a YAML value with a !Tag"), C)
    R.add("<TaggedValueVisitor as Visitor>::visit_enum", tv_visit_enum, C)
    kinds = "any bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit seq map identifier".split()
    wide = {"unit_struct": 1, "newtype_struct": 1, "tuple": 1, "tuple_struct": 2, "struct": 2, "enum": 2}
    for s in ("", "&"):
        K = "<%sTaggedValue as Deserializer>::deserialize_" % s
        for k in kinds:
            R.add(K + k, tv_de, ("C18", "C06"), modular=False)
        for k in wide:
            R.add(K + k, lambda c, t, *r: tv_de(c, t, r[-1]), ("C18", "C06"), modular=False)
        R.add(K + "ignored_any", tv_ignored, ("C18",), modular=False)
        R.add("<%sTaggedValue as EnumAccess>::variant_seed" % s, tv_variant_seed(bool(s)), ("C18", "C06"), modular=False)
        A = "<%sValue as VariantAccess>::" % s
        R.add(A + "unit_variant", va_unit, ("C18",), modular=False)
        R.add(A + "newtype_variant_seed", va_newtype, ("C18",), modular=False)
        R.add(A + "tuple_variant", va_access("Sequence", cv.SEQ, bool(s), "tuple variant"), ("C18",), modular=False)
        R.add(A + "struct_variant", va_access("Mapping", cv.MAP, bool(s), "struct variant"), ("C18",), modular=False)
    R.add("<TagStringVisitor as Visitor>::expecting", lambda c, s, f: write(c, f, "a YAML tag string"), C)
    R.add("<TagStringVisitor as Visitor>::visit_str", ts_visit_str, C, modular=False)
    R.add("<TagStringVisitor as Visitor>::visit_string", ts_visit_str, C, modular=False)
    R.add("<TagStringVisitor as DeserializeSeed>::deserialize", ts_deserialize, C, modular=False)
    R.add("<CheckForTag as Write>::write_str", cft_write, ("C06", "C17", "C03"))
    laws(R)

def laws(R):
    def induct(c):
        """the induction step: one more piece keeps the invariant and appends its text"""
        st, piece = c.const("st", CFT), c.const("piece", "&str")
        c.assume(cft_inv(c, st))
        before = text_of_state(c, st)
        cell = c.alloc(st)
        c.ret = "std::result::Result<(), std::fmt::Error>"
        cft_write(c, Ref(cell, (), "mut", CFT), piece)
        new = c.load(cell)
        c.oblige("the invariant is kept", cft_inv(c, new))
        c.oblige("the text is appended", text_of_state(c, new) == z3.Concat(before, piece))
    R.lemma("CheckForTag: the text is kept piece by piece", ("C06", "C17", "C03"), induct)
    def bang(c):
        s = c.const("s", "&str")
        c.assume(s != S(""))
        t = lambda x: Adt(TAG, None, [x])
        c.assume(z3.Not(z3.PrefixOf(S("!"), s)))
        c.oblige("a tag with or without its ! is the same tag", name(c, t(s)) == name(c, t(z3.Concat(S("!"), s))))
        c.oblige("a tag prints as ! and its name", name(c, t(s)) == s)
    R.lemma("Tag: the leading ! does not matter", ("C06",), bang)
    def back(c):
        s = c.const("s", "&str")
        c.assume(z3.And(s != S(""), s != S("!")))
        t = lambda x: Adt(TAG, None, [x])
        n = name(c, t(s))
        c.oblige("reading a printed tag gives an equal tag", name(c, t(z3.Concat(S("!"), n))) == n)
    R.lemma("Tag: printing and reading back gives an equal tag", ("C06",), back)
