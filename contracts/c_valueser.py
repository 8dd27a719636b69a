"""value/ser.rs: C17 (a value made from a value), C18, C06, C12"""
from contracts.dsl import *
from engine import spec_call
from contracts import c_value as cv, c_mapping as cm, c_number as cn, c_tagged as ct
from contracts.c_mapping import at_ret

V, TAG, TAGGED, STRING, MAP, SEQ = cv.V, cv.TAG, cv.TAGGED, "std::string::String", cm.MAP, cv.SEQ
P = "value::ser::"
VR = RESULT % V
mk = cv.mk
REL = "src/value/ser.rs"
STRUCTS[P + "SerializeArray"] = (REL, [("sequence", SEQ, "mut")])
STRUCTS[P + "SerializeTupleVariant"] = (REL, [("tag", "&str", "mut"), ("sequence", SEQ, "mut")])
STRUCTS[P + "SerializeStruct"] = (REL, [("mapping", MAP, "mut")])
STRUCTS[P + "SerializeStructVariant"] = (REL, [("tag", "&str", "mut"), ("mapping", MAP, "mut")])
def tag_inv(run, v, variant, i, r):
    """the variant's name is not empty: the fields are private, and the functions that make one are under contract"""
    if v.ty.startswith(P) and is_z3(r) and r.sort() == STR:
        run.axiom(r != S(""))
vc.TYPE_INV["SerializeTupleVariant"] = vc.TYPE_INV["SerializeStructVariant"] = tag_inv
SZ = Adt("value::ser::Serializer", None, [])

def v_serialize(c, s, z):
    """the one call of the data model that stands for the variant"""
    v = deep(c.run, s)
    k = c.case(v)
    if k == "Null": return serialize(c, "unit", z)
    p = cv.pay(c, v, k)
    if k == "Bool": return serialize(c, "bool", z, p)
    if k == "Number": return cn.ser(c, p, z)
    if k == "String": return serialize(c, "str", z, strof(c.run, p))
    if k == "Sequence": return uninterp(c.run, "Serializer::collect_seq", [z, p], c.ret)
    if k == "Tagged": return ct.tv_serialize(c, p, z)
    if getattr(c.run, "delegated", False) or getattr(c.run, "collected", False): return cm.m_ser_call(c, p, z)     # Mapping's own, under contract
    r = uninterp(c.run, "Serializer::serialize_map", [z, some("std::option::Option<usize>", cm.m_len(c, p))], "std::result::Result<%s, <S as serde::Serializer>::Error>" % cm.SM)
    return c.tail("entries", cm.q2(c, r, cm.SM), z3.IntVal(0))
def v_ser_step(c, args, ms, i):
    return cm.m_ser_step(c, [c.mkref(cv.pay(c, deep(c.run, args[0]), "Mapping"), "shared", MAP)], ms, i)

def to_value(c, x, ty):
    """what the client's Serialize makes of the Value serializer"""
    return q(c, to_value_r(c, x, ty), V)
def to_value_r(c, x, ty):
    return call(c, "<%s as serde::Serialize>::serialize::<value::ser::Serializer>" % ty, [x, SZ], ["&" + ty, "value::ser::Serializer"], VR)

# ------------------------------------------------------------------ Serializer
def okv(f):
    def g(c, s, *a): return ok(c.ret, f(c, *a))
    g.__doc__ = f.__doc__
    return g
def number(c, x):
    return mk("Number", int_number(c, x))
def flt(c, x):
    return mk("Number", cn.from_float(c, x))
def big(c, x):
    """the integer if it fits u64 or i64, else its decimal text"""
    if c.branch(z3.And(x >= I64[0], x <= U64[1])): return number(c, x)
    return mk("String", int_text(x))
def text(c, x):
    return mk("String", strof(c.run, x))
def char(c, x):
    return mk("String", lib.char_utf8(c.run, x) if hasattr(lib, "char_utf8") else utf8(c.run, x))
def null(c, *a):
    return mk("Null")
def variant_text(c, name, i, v):
    return text(c, v)
def same(c, s, *a):
    """the value itself"""
    return uninterp(c.run, "Serialize::serialize", [a[-1], s], c.ret)
def empty_vec(c):
    return call(c, "std::vec::Vec::<value::Value>::new", [], [], SEQ)
def mkseq(c): return mkstruct(c, P + "SerializeArray", sequence=empty_vec(c))
def sz_seq(c, s, *a): return ok(c.ret, mkseq(c))
def empty_tag(c, variant):
    if c.branch(strof(c.run, variant) == S("")):
        raise Return(err(c.ret, new_error(c, "EmptyTag")))
def tagged(c, tag, v):
    return mk("Tagged", Ref(c.alloc(Adt(TAGGED, None, [Adt(TAG, None, [strof(c.run, tag)]), v]), "box"), (), "box", TAGGED))
def sz_newtype_variant(c, s, name, i, variant, x):
    """tagged with the variant's name; an empty name is an error"""
    empty_tag(c, variant)
    return ok(c.ret, tagged(c, variant, to_value(c, x, "T")))
def sz_tuple_variant(c, s, name, i, variant, n):
    empty_tag(c, variant)
    return ok(c.ret, mkstruct(c, P + "SerializeTupleVariant", tag=variant, sequence=empty_vec(c)))
def sz_struct_variant(c, s, name, i, variant, n):
    empty_tag(c, variant)
    return ok(c.ret, mkstruct(c, P + "SerializeStructVariant", tag=variant, mapping=cm.m_new(c)))
def post_bytes(c, res, mem, s, b):
    """a sequence of the byte values, in order"""
    run = c.run
    v = res.fields[0] if isinstance(res, Adt) and res.variant == "Ok" else None
    if not (isinstance(v, Adt) and v.variant == "Sequence"):
        return [("is a sequence", z3.BoolVal(False))]
    sq, src = deep(run, v.fields[0]), deep(run, b)
    n = lib3.seq_len(run, src)
    j = z3.Int("j")
    run.assume(z3.And(j >= 0, j < n))
    return [("same length", lib3.seq_len(run, sq) == n), ("element j is byte j", run.eq(run.elem(sq, j, V), mk("Number", mknum("PosInt", run.elem(src, j, "u8"))), mem, mem))]
def post_cft_bytes(c, res, mem, s, b):
    v = res.fields[0] if isinstance(res, Adt) and res.variant == "Ok" else None
    if not (isinstance(v, Adt) and v.variant == "NotTag"):
        return [("is not a tag", z3.BoolVal(False))]
    return post_bytes(c, Adt(VR, "Ok", [v.fields[0]]), mem, s, b)
def sz_struct(c, s, *a):
    return ok(c.ret, mkstruct(c, P + "SerializeStruct", mapping=cm.m_new(c)))
def untagged(c, m, key=None):
    out = [None, None]
    o = "std::option::Option<value::Value>"
    return Adt(P + "SerializeMap", "Untagged", [m, none(o) if key is None else some(o, key)])
def sz_map(c, s, n):
    """only a map announced with one entry can turn out to be a tagged value"""
    if c.case(n) == "Some" and c.branch(c.field(n, "Some", 0, "usize") == 1):
        return ok(c.ret, Adt(P + "SerializeMap", "CheckForTag", []))
    return ok(c.ret, untagged(c, cm.m_new(c)))
# ------------------------------------------------------------------ what collects
def field_ref(c, s, name):
    return at(c, s, name)
def arr_push(ty):
    def f(c, s, x):
        """one more element at the end"""
        v = to_value(c, x, ty)
        r = at(c, s, "sequence")
        lib.vec_push_val(c.run, r, v)
        return ok(c.ret, UNIT)
    return f
def own(c, s, name):
    """a field of a struct held by value"""
    t = s.ty
    return c.field(s, None, sidx(c, t, name), sty(t, name))
def arr_end(c, s):
    return ok(c.ret, mk("Sequence", own(c, s, "sequence")))
def tv_end(c, s):
    """tagged with the variant's name"""
    return ok(c.ret, tagged(c, own(c, s, "tag"), mk("Sequence", own(c, s, "sequence"))))
def st_end(c, s):
    return ok(c.ret, mk("Mapping", own(c, s, "mapping")))
def sv_end(c, s):
    return ok(c.ret, tagged(c, own(c, s, "tag"), mk("Mapping", own(c, s, "mapping"))))
def map_put(c, m, k, v):
    im_r = cm.sub(m)
    lib3.im_put(c.run, im_r, k, v)
import lib3
def st_field(c, s, k, v):
    """the field under its name"""
    key = text(c, k)
    map_put(c, at(c, s, "mapping"), key, to_value(c, v, c.tys[2].lstrip("&")))
    return ok(c.ret, UNIT)

# ------------------------------------------------------------------ maps, of which one with a single tag key is a tagged value
def sm_cur(c, s):
    v = c.load(s.cell, s.path)
    return v, c.case(v)
def was_tagged(c, s, v):
    """the map whose first entry looked like a tag: the tag's text as a string key"""
    t = c.field(v, "Tagged", 0, TAGGED)
    tag = c.field(t, None, 0, TAG)
    m = Ref(c.alloc(cm.m_new(c)), (), "mut", MAP)
    map_put(c, m, mk("String", z3.Concat(S("!"), ct.name(c, tag))), c.field(t, None, 1, V))
    return m
def sm_key(c, s, k):
    key = to_value(c, k, "T")
    v, kind = sm_cur(c, s)
    if kind == "CheckForTag": new = untagged(c, cm.m_new(c), key)
    elif kind == "Tagged": new = untagged(c, c.load(was_tagged(c, s, v).cell), key)
    else: new = untagged(c, c.field(v, "Untagged", 0, MAP), key)
    c.store(s.cell, s.path, new)
    return ok(c.ret, UNIT)
def sm_value(c, s, x):
    """the value of the key given last; without a key it panics, as documented by serde"""
    v, kind = sm_cur(c, s)
    if kind != "Untagged": c.panic()
    k = c.field(v, "Untagged", 1, "std::option::Option<value::Value>")
    if c.case(k) == "None": c.panic("serialize_value called before serialize_key")
    m = c.field(v, "Untagged", 0, MAP)
    c.store(s.cell, s.path, untagged(c, m))
    val = to_value(c, x, "T")
    mr = Ref(c.alloc(m), (), "mut", MAP)
    map_put(c, mr, c.field(k, "Some", 0, V), val)
    c.store(s.cell, s.path, untagged(c, c.load(mr.cell)))
    return ok(c.ret, UNIT)
MT = "value::tagged::MaybeTag<value::Value>"
def sm_entry(c, s, k, x):
    v, kind = sm_cur(c, s)
    if kind == "CheckForTag":
        r = uninterp(c.run, "Serialize::serialize", [k, Adt("CheckForTag", None, [])], RESULT % MT)
        key = q(c, r, MT)
        if c.case(key) == "Tag":
            t = z3.Concat(S("!"), strof(c.run, c.field(key, "Tag", 0, STRING)))
            new = Adt(P + "SerializeMap", "Tagged", [Adt(TAGGED, None, [Adt(TAG, None, [t]), to_value(c, x, "V")])])
        else:
            m = Ref(c.alloc(cm.m_new(c)), (), "mut", MAP)
            val = to_value(c, x, "V")
            map_put(c, m, c.field(key, "NotTag", 0, V), val)
            new = untagged(c, c.load(m.cell))
    elif kind == "Tagged":
        m = was_tagged(c, s, v)
        # an error below leaves the value taken, and the entry is lost with the map
        c.store(s.cell, s.path, Adt(P + "SerializeMap", "Tagged", [Adt(TAGGED, None, [c.field(c.field(v, "Tagged", 0, TAGGED), None, 0, TAG), mk("Null")])]))
        key = to_value(c, k, "K")
        val = to_value(c, x, "V")
        map_put(c, m, key, val)
        new = untagged(c, c.load(m.cell))
    else:
        m = Ref(s.cell, s.path + (("Untagged", 0, MAP),), "mut", MAP)
        key = to_value(c, k, "K")
        val = to_value(c, x, "V")
        map_put(c, m, key, val)
        return ok(c.ret, UNIT)
    c.store(s.cell, s.path, new)
    return ok(c.ret, UNIT)
def sm_end(c, s):
    k = c.case(s)
    if k == "CheckForTag": return ok(c.ret, mk("Mapping", cm.m_new(c)))
    if k == "Tagged": return ok(c.ret, mk("Tagged", Ref(c.alloc(c.field(s, k, 0, TAGGED), "box"), (), "box", TAGGED)))
    return ok(c.ret, mk("Mapping", c.field(s, k, 0, MAP)))

# ------------------------------------------------------------------ the key serializer: the same value, unless it is a tag
def nottag(spec):
    def f(c, s, *a):
        """the plain serializer's answer, not a tag"""
        r = spec_call(spec, at_ret(c, VR), SZ, *a)
        if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
        return ok(c.ret, Adt(MT, "NotTag", [c.field(r, "Ok", 0, V)]))
    return f
def wrapped(spec):
    def f(c, s, *a):
        inner = T(T(c.ret)[0])[0]
        r = spec_call(spec, at_ret(c, RESULT % inner), SZ, *a)
        if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
        return ok(c.ret, Adt(T(c.ret)[0], None, [c.field(r, "Ok", 0, inner)]))
    return f
def cft_collect(c, s, x):
    """a tag when the text is one, else a string"""
    r = ct.check_tag(at_ret(c, "value::tagged::MaybeTag<std::string::String>"), x)
    k = c.case(r)
    p = strof(c.run, c.field(r, k, 0, STRING))
    return ok(c.ret, Adt(MT, "Tag", [p]) if k == "Tag" else Adt(MT, "NotTag", [mk("String", p)]))
def delegate(spec, D):
    def f(c, s, *a):
        """what the wrapped collector does"""
        return spec_call(spec, c, Ref(s.cell, s.path + ((None, 0, D),), "mut", D), *a)
    return f
def delegate_end(spec, D):
    def f(c, s):
        r = spec_call(spec, at_ret(c, VR), c.field(s, None, 0, D))
        if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
        return ok(c.ret, Adt(MT, "NotTag", [c.field(r, "Ok", 0, V)]))
    return f

def register(R):
    C = ("C17",)
    R.add("<Value as Serialize>::serialize", v_serialize, ("C17", "C02", "C03"), modular=False,
          loops={0: exe.TailLoop("entries", cm.map_ser_loop(), v_ser_step, decreases=cm.left("mapping::Iter"))})
    R.add("value::to_value", lambda c, v: to_value_r(c, c.mkref(v, "shared", "T"), "T"), C, modular=False)
    Z = "<Serializer as Serializer>::serialize_"
    N = ("C17", "C04")
    sc = {}
    for t in "i8 i16 i32 i64 u8 u16 u32 u64".split(): sc[t] = okv(number)
    for t in ("i128", "u128"): sc[t] = okv(big)
    for t in ("f32", "f64"): sc[t] = okv(flt)
    sc.update(bool=okv(lambda c, b: mk("Bool", b)), char=okv(char), str=okv(text), unit=okv(null), unit_struct=okv(null), none=okv(null),
              unit_variant=okv(variant_text), newtype_struct=same, some=same, newtype_variant=sz_newtype_variant)
    comp = dict(seq=sz_seq, tuple=sz_seq, tuple_struct=sz_seq, tuple_variant=sz_tuple_variant, map=sz_map, struct=sz_struct, struct_variant=sz_struct_variant)
    for t, f in list(sc.items()) + list(comp.items()):
        R.add(Z + t, f, N if t[1:].isdigit() else C)
        R.add("<CheckForTag as Serializer>::serialize_" + t, (wrapped if t in comp else nottag)(f), C, modular=False)
    R.add(Z + "bytes", None, C, post=post_bytes, modular=False)
    R.add("<CheckForTag as Serializer>::serialize_bytes", None, C, post=post_cft_bytes, modular=False)
    R.add("<CheckForTag as Serializer>::collect_str", cft_collect, ("C17", "C06"), modular=False)
    A, TVt, ST, SV, SMt = (P + n for n in ("SerializeArray", "SerializeTupleVariant", "SerializeStruct", "SerializeStructVariant", "SerializeMap"))
    el = [("SerializeArray", "SerializeSeq", "serialize_element", arr_push("T"), arr_end), ("SerializeArray", "SerializeTuple", "serialize_element", arr_push("T"), arr_end),
          ("SerializeArray", "SerializeTupleStruct", "serialize_field", arr_push("V"), arr_end), ("SerializeTupleVariant", "SerializeTupleVariant", "serialize_field", arr_push("V"), tv_end),
          ("SerializeStruct", "SerializeStruct", "serialize_field", st_field, st_end), ("SerializeStructVariant", "SerializeStructVariant", "serialize_field", st_field, sv_end)]
    for ty, tr, m, push, end in el:
        R.add("<%s as %s>::%s" % (ty, tr, m), push, C)
        R.add("<%s as %s>::end" % (ty, tr), end, C)
        R.add("<NotTag as %s>::%s" % (tr, m), delegate(push, P + ty), C, modular=False)
        R.add("<NotTag as %s>::end" % tr, delegate_end(end, P + ty), C, modular=False)
    for m, f, p in (("key", sm_key, False), ("value", sm_value, True), ("entry", sm_entry, False)):
        R.add("<SerializeMap as SerializeMap>::serialize_" + m, f, ("C17", "C06", "C12"), panics=p)
        R.add("<NotTag as SerializeMap>::serialize_" + m, delegate(f, SMt), ("C17",), modular=False, panics=p)
    R.add("<SerializeMap as SerializeMap>::end", sm_end, ("C17", "C06"))
    R.add("<NotTag as SerializeMap>::end", delegate_end(sm_end, SMt), C, modular=False)
