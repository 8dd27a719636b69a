"""with.rs: C19 (enums as maps of one entry). Both modules share the specifications: W is the wrapper, and
the recursive one hands the wrapper on to everything below."""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm, c_valueser as vs
import lib, lib3

REL = "src/with.rs"
V, SEQ, MAP = cv.V, cv.SEQ, cm.MAP
NUMS = "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64".split()
SER0 = "bool %s char str bytes unit unit_struct unit_variant none" % " ".join(NUMS)
DE0 = "any bool %s char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any" % " ".join(NUMS)
VIS0 = "bool %s char str borrowed_str string bytes borrowed_bytes byte_buf none unit" % " ".join(NUMS)

class Mod:
    def __init__(self, rec):
        self.rec = rec
        self.p = "with::singleton_map%s::" % ("_recursive" if rec else "")
        self.W = "SingletonMap" + ("Recursive" if rec else "")
        for n, fs in ((self.W, [("delegate", "D")]), (self.W + "AsEnum", [("name", "&str"), ("delegate", "D")]),
                      ("SerializeTupleVariantAs" + self.W, [("map", "M"), ("sequence", SEQ)]), ("SerializeStructVariantAs" + self.W, [("map", "M"), ("mapping", MAP)]),
                      ("TupleVariantSeed", [("len", "usize"), ("visitor", "V")]), ("StructVariantSeed", [("name", "&str"), ("fields", "&[&str]"), ("visitor", "V")])):
            STRUCTS[self.p + n] = (REL, [(a, b, "mut") for a, b in fs])

    def wrap(self, x):
        return Adt(self.p + self.W, None, [x])
    def rwrap(self, c, x):
        return c.mkref(self.wrap(x), "shared", self.p + self.W)
    def inner(self, c, s, ty="D", name="delegate"):
        """the wrapped thing, by value or by the same kind of reference"""
        if isinstance(s, Ref):
            v = c.load(s.cell, s.path)
            return Ref(s.cell, s.path + ((None, self.idx(c, v.ty, name), ty),), s.kind, ty)
        return c.field(s, None, self.idx(c, s.ty, name), ty)
    def idx(self, c, ty, name):
        return sidx(c, strip_ty_generics(ty), name)
    def own(self, c, s, name):
        t = strip_ty_generics(s.ty)
        return c.field(s, None, sidx(c, t, name), sty(t, name))

    def fwd(self, trait, method, wrap=None, pick=None):
        """the same call on the wrapped thing, unchanged except that what is handed on is wrapped too (recursive)"""
        def f(c, s, *a):
            a = list(a)
            if wrap:
                for i in (wrap if isinstance(wrap, (list, tuple)) else [wrap]):
                    a[i] = self.rwrap(c, a[i]) if trait.startswith("Serialize") else self.wrap(a[i])
            if method == "serialize_entry": return lib3.ser_entry(c.run, self.inner(c, s), a[0], a[1], c.ret)
            return uninterp(c.run, "%s::%s" % (trait, method), [self.inner(c, s)] + a, c.ret)
        f.__doc__ = self.fwd.__doc__
        return f
    def fwd_ok(self, trait, method, assoc):
        """the wrapped collector, wrapped again"""
        def f(c, s, *a):
            ok_, er = T(c.ret)
            it = "<D as serde::Serializer>::" + assoc
            r = uninterp(c.run, "%s::%s" % (trait, method), [self.inner(c, s)] + list(a), "std::result::Result<%s, %s>" % (it, er))
            return ok(c.ret, self.wrap(cm.q2(c, r, it)))
        return f

    # ---- serialization of variants
    def newmap(self, c, s):
        er = T(c.ret)[1]
        M = "<D as serde::Serializer>::SerializeMap"
        r = uninterp(c.run, "Serializer::serialize_map", [self.inner(c, s), some("std::option::Option<usize>", z3.IntVal(1))], "std::result::Result<%s, %s>" % (M, er))
        m = cm.q2(c, r, M)
        return Ref(c.alloc(m), (), "mut", M), "std::result::Result<(), %s>" % er
    def newtype_variant(self, c, s, name, i, variant, x):
        """a map of one entry: the variant's name, the value"""
        m, u = self.newmap(c, s)
        cm.q2(c, lib3.ser_entry(c.run, m, variant, self.rwrap(c, x) if self.rec else x, u), "()")
        return uninterp(c.run, "SerializeMap::end", [c.load(m.cell)], c.ret)
    def key_first(self, c, s, variant):
        m, u = self.newmap(c, s)
        cm.q2(c, uninterp(c.run, "SerializeMap::serialize_key", [m, variant], u), "()")
        return c.load(m.cell)
    def tuple_variant(self, c, s, name, i, variant, n):
        """a map of one entry is begun with the variant's name"""
        m = self.key_first(c, s, variant)
        return ok(c.ret, mkstruct(c, self.p + "SerializeTupleVariantAs" + self.W, map=m, sequence=vs.empty_vec(c)))
    def struct_variant(self, c, s, name, i, variant, n):
        m = self.key_first(c, s, variant)
        return ok(c.ret, mkstruct(c, self.p + "SerializeStructVariantAs" + self.W, map=m, mapping=cm.m_new(c)))
    def collected(self, c, x):
        """the field as a Value; its error is handed on as a custom error"""
        ty = c.tys[-1].lstrip("&")
        sz = self.wrap(vs.SZ) if self.rec else vs.SZ
        r = uninterp(c.run, "Serialize::serialize", [x, sz], vs.VR) if self.rec else vs.to_value_r(c, x, ty)
        if c.case(r) == "Err":
            raise Return(err(c.ret, uninterp(c.run, "Error::custom", [display_text(c.run, None, ERR, c.field(r, "Err", 0, ERR))], T(c.ret)[1])))
        return c.field(r, "Ok", 0, V)
    def tv_field(self, c, s, x):
        v = self.collected(c, x)
        lib.vec_push_val(c.run, self.inner(c, s, SEQ, "sequence"), v)
        return ok(c.ret, UNIT)
    def sv_field(self, c, s, k, x):
        v = self.collected(c, x)
        vs.map_put(c, self.inner(c, s, MAP, "mapping"), vs.text(c, k), v)
        return ok(c.ret, UNIT)
    def variant_end(self, name, ty):
        def f(c, s):
            """the collected fields are the value of the entry"""
            M = Ref(c.alloc(self.inner(c, s, "M", "map")), (), "mut", "M")
            cm.q2(c, uninterp(c.run, "SerializeMap::serialize_value", [M, c.mkref(self.own(c, s, name), "shared", ty)], "std::result::Result<(), %s>" % T(c.ret)[1]), "()")
            return uninterp(c.run, "SerializeMap::end", [c.load(M.cell)], c.ret)
        return f

    # ---- deserialization of enums
    def as_enum(self, c, name, x):
        return mkstruct(c, self.p + self.W + "AsEnum", name=name, delegate=x)
    def option(self, c, s, visitor):
        """an optional enum: the visitor takes strings and maps for enums"""
        return uninterp(c.run, "Deserializer::deserialize_option", [self.inner(c, s), self.as_enum(c, S(""), visitor)], c.ret)
    def enum(self, c, s, name, variants, visitor):
        """an enum is whatever is there: a string or a map of one entry"""
        return uninterp(c.run, "Deserializer::deserialize_any", [self.inner(c, s), self.as_enum(c, strof(c.run, name), visitor)], c.ret)
    def e_str(self, kind):
        def f(c, s, x):
            """a string names a unit variant"""
            d = call(c, "serde::de::value::%s::<E>::new" % kind, [x], [c.tys[1]], "serde::de::value::%s<E>" % kind)
            return uninterp(c.run, "Visitor::visit_enum", [self.inner(c, s), d], c.ret)
        return f
    def e_some(self, c, s, d):
        return uninterp(c.run, "Visitor::visit_some", [self.inner(c, s), self.wrap(d)], c.ret)
    def e_map(self, c, s, m):
        """a map is the variant's name and its payload"""
        return uninterp(c.run, "Visitor::visit_enum", [self.inner(c, s), self.as_enum(c, self.own(c, s, "name"), m)], c.ret)
    def one_key(self, c, kind="invalid_value", what="map with a single key"):
        raise Return(err(c.ret, uninterp(c.run, "Error::" + kind, [Adt("serde::de::Unexpected", "Map", []), c.mkref(S(what), "shared", "&str")], T(c.ret)[1])))
    def map_ref(self, c, s):
        cell = c.alloc(s)
        return Ref(cell, ((None, self.idx(c, s.ty, "delegate"), "D"),), "mut", "D"), cell
    def e_seed(self, c, s, sd):
        """the first key names the variant; an empty map is an error"""
        m, cell = self.map_ref(c, s)
        ok_, er = T(c.ret)
        kt = tuple_tys(ok_)[0]
        o = "std::option::Option<%s>" % kt
        k = cm.q2(c, uninterp(c.run, "MapAccess::next_key_seed", [m, sd], "std::result::Result<%s, %s>" % (o, er)), o)
        if c.case(k) == "None": self.one_key(c)
        return ok(c.ret, Adt(ok_, None, [c.field(k, "Some", 0, kt), c.load(cell)]))
    def v_unit(self, c, s):
        self.one_key(c, "invalid_type", "unit variant")
    def payload(self, seed):
        def f(c, s, *a):
            """the payload is the value of the first entry, and there must be no second one"""
            m, cell = self.map_ref(c, s)
            ok_, er = T(c.ret)
            v = cm.q2(c, uninterp(c.run, "MapAccess::next_value_seed", [m, seed(c, s, *a)], c.ret), ok_)
            o = "std::option::Option<serde::de::IgnoredAny>"
            k = cm.q2(c, uninterp(c.run, "MapAccess::next_key", [m], "std::result::Result<%s, %s>" % (o, er)), o)
            if c.case(k) == "Some": self.one_key(c)
            return ok(c.ret, v)
        return f
    def w(self, x):
        return self.wrap(x) if self.rec else x

def visitor_fwd(k):
    def f(c, s, *a):
        return uninterp(c.run, "Visitor::visit_" + k, [s] + list(a), c.ret)
    return f

def register(R):
    C = ("C19",)
    R.assume(("C06", "C17", "C19"), "a client's SerializeMap::serialize_entry is serialize_key, then serialize_value (serde's documented contract)")
    R.assume(C, "the Display text of this crate's Error is an opaque function of the error")
    for m in (Mod(False), Mod(True)):
        W, rec = m.W, m.rec
        add = lambda k, f, **kw: R.add(k, f, C, modular=False, **kw)
        add(m.p + "serialize", lambda c, v, z, m=m: uninterp(c.run, "Serialize::serialize", [v, m.wrap(z)], c.ret))
        add(m.p + "deserialize", lambda c, d, m=m: uninterp(c.run, "Deserialize::deserialize", [m.wrap(d)], c.ret))
        add("<%s as Serialize>::serialize" % W, lambda c, s, z, m=m: uninterp(c.run, "Serialize::serialize", [m.inner(c, s), m.wrap(z)], c.ret))
        Z = "<%s as Serializer>::" % W
        for k in SER0.split():
            add(Z + "serialize_" + k, m.fwd("Serializer", "serialize_" + k))
        add(Z + "serialize_newtype_struct", m.fwd("Serializer", "serialize_newtype_struct", [1] if rec else None))
        add(Z + "serialize_some", m.fwd("Serializer", "serialize_some", [0]))
        for k, assoc in (("seq", "SerializeSeq"), ("tuple", "SerializeTuple"), ("tuple_struct", "SerializeTupleStruct"), ("map", "SerializeMap"), ("struct", "SerializeStruct")):
            add(Z + "serialize_" + k, m.fwd_ok("Serializer", "serialize_" + k, assoc) if rec else m.fwd("Serializer", "serialize_" + k))
        add(Z + "serialize_newtype_variant", m.newtype_variant)
        add(Z + "serialize_tuple_variant", m.tuple_variant)
        add(Z + "serialize_struct_variant", m.struct_variant)
        add(Z + "collect_str", m.fwd("Serializer", "collect_str"))
        add(Z + "is_human_readable", m.fwd("Serializer", "is_human_readable"))
        TV, SV = "SerializeTupleVariantAs" + W, "SerializeStructVariantAs" + W
        add("<%s as SerializeTupleVariant>::serialize_field" % TV, m.tv_field)
        add("<%s as SerializeTupleVariant>::end" % TV, m.variant_end("sequence", SEQ))
        add("<%s as SerializeStructVariant>::serialize_field" % SV, m.sv_field)
        add("<%s as SerializeStructVariant>::end" % SV, m.variant_end("mapping", MAP))
        D = "<%s as Deserializer>::" % W
        for k in DE0.split():
            add(D + "deserialize_" + k, m.fwd("Deserializer", "deserialize_" + k, [-1] if rec else None))
        add(D + "deserialize_option", m.option)
        add(D + "deserialize_enum", m.enum)
        add(D + "is_human_readable", m.fwd("Deserializer", "is_human_readable"))
        E = "<%sAsEnum as Visitor>::" % W
        add(E + "expecting", m.fwd("Visitor", "expecting"))
        add(E + "visit_str", m.e_str("StrDeserializer"))
        add(E + "visit_borrowed_str", m.e_str("BorrowedStrDeserializer"))
        add(E + "visit_string", m.e_str("StringDeserializer"))
        add(E + "visit_none", m.fwd("Visitor", "visit_none"))
        add(E + "visit_unit", m.fwd("Visitor", "visit_unit"))
        add(E + "visit_some", m.e_some)
        add(E + "visit_map", m.e_map)
        add("<%sAsEnum as EnumAccess>::variant_seed" % W, m.e_seed)
        A = "<%sAsEnum as VariantAccess>::" % W
        add(A + "unit_variant", m.v_unit)
        add(A + "newtype_variant_seed", m.payload(lambda c, s, sd, m=m: m.w(sd)))
        add(A + "tuple_variant", m.payload(lambda c, s, n, v, m=m: mkstruct(c, m.p + "TupleVariantSeed", len=n, visitor=m.w(v))))
        add(A + "struct_variant", m.payload(lambda c, s, fs, v, m=m: mkstruct(c, m.p + "StructVariantSeed", name=m.own(c, s, "name"), fields=fs, visitor=m.w(v))))
        sfx = " in " + m.p[:-2]
        add("<TupleVariantSeed as DeserializeSeed>::deserialize" + sfx, lambda c, s, d, m=m: uninterp(c.run, "Deserializer::deserialize_tuple", [d, m.own(c, s, "len"), m.own(c, s, "visitor")], c.ret))
        add("<StructVariantSeed as DeserializeSeed>::deserialize" + sfx, lambda c, s, d, m=m: uninterp(c.run, "Deserializer::deserialize_struct", [d, m.own(c, s, "name"), m.own(c, s, "fields"), m.own(c, s, "visitor")], c.ret))
        if not rec: continue
        for tr, me, w in (("SerializeSeq", "serialize_element", [0]), ("SerializeTuple", "serialize_element", [0]), ("SerializeTupleStruct", "serialize_field", [0]),
                          ("SerializeMap", "serialize_key", [0]), ("SerializeMap", "serialize_value", [0]), ("SerializeMap", "serialize_entry", [0, 1]), ("SerializeStruct", "serialize_field", [1])):
            add("<%s as %s>::%s" % (W, tr, me), m.fwd(tr, me, w))
        for tr in ("SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeMap", "SerializeStruct"):
            add("<%s as %s>::end" % (W, tr), m.fwd(tr, "end"))
        Y = "<%s as Visitor>::" % W
        add(Y + "expecting", m.fwd("Visitor", "expecting"))
        for k in VIS0.split():
            add(Y + "visit_" + k, m.fwd("Visitor", "visit_" + k))
        for k in "some newtype_struct seq map enum".split():
            add(Y + "visit_" + k, m.fwd("Visitor", "visit_" + k, [0]))
        add("<%s as EnumAccess>::variant_seed" % W, m_variant_seed(m))
        X = "<%s as VariantAccess>::" % W
        add(X + "unit_variant", m.fwd("VariantAccess", "unit_variant"))
        add(X + "newtype_variant_seed", m.fwd("VariantAccess", "newtype_variant_seed", [0]))
        add(X + "tuple_variant", m.fwd("VariantAccess", "tuple_variant", [1]))
        add(X + "struct_variant", m.fwd("VariantAccess", "struct_variant", [1]))
        add("<%s as DeserializeSeed>::deserialize" % W, m.fwd("DeserializeSeed", "deserialize", [0]))
        add("<%s as SeqAccess>::next_element_seed" % W, m.fwd("SeqAccess", "next_element_seed", [0]))
        add("<%s as MapAccess>::next_key_seed" % W, m.fwd("MapAccess", "next_key_seed", [0]))
        add("<%s as MapAccess>::next_value_seed" % W, m.fwd("MapAccess", "next_value_seed", [0]))

def m_variant_seed(m):
    def f(c, s, sd):
        """the variant's name is read unchanged; its payload is wrapped"""
        ok_, er = T(c.ret)
        kt = tuple_tys(ok_)[0]
        vt = "<A as serde::de::EnumAccess>::Variant"
        p = cm.q2(c, uninterp(c.run, "EnumAccess::variant_seed", [m.inner(c, s), sd], "std::result::Result<(%s, %s), %s>" % (kt, vt, er)), "(%s, %s)" % (kt, vt))
        return ok(c.ret, Adt(ok_, None, [c.field(p, None, 0, kt), m.wrap(c.field(p, None, 1, vt))]))
    return f
