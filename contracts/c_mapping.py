"""mapping.rs and value/index.rs: C07, C08 (and the duplicate-key rule of C12).  The ordered map itself is indexmap's; what is
specified here is which of its operations each public method is, on which key."""
from contracts.dsl import *
from contracts import c_value as cv
import lib3
from lib3 import IM, VAL, im_len, im_pos, im_has, im_empty, im_key, im_keyref, im_val, im_ref, im_put, im_del, im_iter, im_term

MAP = "mapping::Mapping"
def sub(m, kind="mut"):
    """the indexmap inside a Mapping"""
    return Ref(m.cell, m.path + ((None, 0, IM),), kind, IM)
def im(c, m):
    return c.field(deep(c.run, m), None, 0, IM)
def mkmap(m):
    return Adt(MAP, None, [m])

# ------------------------------------------------------------------ the key a lookup means
def key_value(c, s, k):
    if k == "self": return deep(c.run, s)
    return Adt(VAL, "String", [strof(c.run, s)])

def kis_key(k):
    def f(c, s, m):
        return im_has(c.run, im(c, m), key_value(c, s, k))
    return f
def kindex(k, mut):
    def f(c, s, m):
        run = c.run
        key = key_value(c, s, k)
        if not run.branch(im_has(run, im(c, m), key)): return none(c.ret)
        return some(c.ret, im_ref(run, sub(m), im_pos(run, im(c, m), key), "mut" if mut else "shared"))
    return f
def kremove(k, how, entry):
    def f(c, s, m):
        kv = im_del(c.run, sub(m), key_value(c, s, k), how)
        if kv is None: return none(c.ret)
        return some(c.ret, Adt(T(c.ret)[0], None, list(kv)) if entry else kv[1])
    return f
def forward(name):
    """what the pointed-to index answers"""
    def f(c, s, m):
        return uninterp(c.run, "Index::" + name, [c.load(s.cell, s.path), m], c.ret)
    return f
def through(name):
    """what the index answers (indices are taken by value)"""
    def f(c, m, i):
        return uninterp(c.run, "Index::" + name, [c.mkref(i, "shared", "I"), m], c.ret)
    return f
def deref_index(name):
    def f(c, s, m):
        r = c.load(s.cell, s.path)
        return uninterp(c.run, "Index::" + name, [r if isinstance(r, Ref) else c.mkref(r, "shared", "T"), m], c.ret)
    return f

# ------------------------------------------------------------------ HashLikeValue stands for Value::String
def hl_equivalent(c, s, key):
    """equal exactly to the string value of that text"""
    k = deep(c.run, key)
    if c.case(k) != "String": return z3.BoolVal(False)
    return strof(c.run, c.field(deep(c.run, s), None, 0, "&str")) == strof(c.run, c.field(k, "String", 0, "std::string::String"))
def hl_hash(c, s, state):
    """hashes like the string value of that text"""
    v = Adt(VAL, "String", [strof(c.run, c.field(deep(c.run, s), None, 0, "&str"))])
    from contracts import c_eq
    return c_eq.v_hash(c, v, state)

# ------------------------------------------------------------------ the map
def m_new(c): return mkmap(im_empty(c.run))
def m_with_capacity(c, n): return mkmap(im_empty(c.run))
def m_unchanged(c, m, *a): return UNIT
def m_insert(c, m, k, v):
    old = im_put(c.run, sub(m), k, v)
    return none(c.ret) if old is None else some(c.ret, old)
def m_len(c, m): return im_len(c.run, im(c, m))
def m_is_empty(c, m): return im_len(c.run, im(c, m)) == 0
def m_clear(c, m):
    r = sub(m)
    c.store(r.cell, r.path, im_empty(c.run))
    return UNIT
def m_entry(c, m, k):
    """Occupied exactly when a key equal to k is there"""
    r = sub(m)
    o = c.branch(im_has(c.run, im(c, m), k))
    n = "Occupied" if o else "Vacant"
    return Adt(c.ret, n, [Adt("mapping::%sEntry" % n, None, [Adt("indexmap::map::%sEntry<value::Value, value::Value>" % n, None, [r, k])])])
def m_iter(ity, kind):
    def f(c, m):
        r = sub(m, kind) if isinstance(m, Ref) else im(c, m)
        return Adt("mapping::" + ity, None, [im_iter(c.run, r, "indexmap::map::%s<value::Value, value::Value>" % ity)])
    return f
def m_opaque(n):
    def f(c, m, *a):
        return uninterp(c.run, "im." + n, [sub(m, "mut" if n != "capacity" else "shared")] + list(a), c.ret)
    return f
def m_from_iter(c, it): return mkmap(uninterp(c.run, "im.from_iter", [it], IM))

def it_next(c, s):
    r = Ref(s.cell, s.path + ((None, 0, it_ty(c, s)),), "mut", it_ty(c, s))
    return call(c, "<%s as std::iter::Iterator>::next" % r.ty, [r], ["&mut " + r.ty], c.ret)
def it_size(m):
    def f(c, s):
        r = Ref(s.cell, s.path + ((None, 0, it_ty(c, s)),), "shared", it_ty(c, s))
        return call(c, "<%s as std::iter::%s>::%s" % (r.ty, "ExactSizeIterator" if m == "len" else "Iterator", m), [r], ["&" + r.ty], c.ret)
    return f
def it_ty(c, s):
    return "indexmap::map::%s<value::Value, value::Value>" % short(s.ty)

# ------------------------------------------------------------------ entries
OCC, VAC = "indexmap::map::OccupiedEntry<value::Value, value::Value>", "indexmap::map::VacantEntry<value::Value, value::Value>"
def ent_of(c, e, ty):
    """the indexmap entry in an entry of this crate"""
    return lib3.ent(c.run, c.field(deep(c.run, e), None, 0, ty))
def occ(c, e):
    r, k = ent_of(c, e, OCC)
    p = im_pos(c.run, r, k)
    c.run.axiom(p >= 0)
    return r, k, p
def vac(c, e):
    r, k = ent_of(c, e, VAC)
    c.run.axiom(im_pos(c.run, r, k) == -1)
    return r, k
def o_key(c, e):
    r, k, p = occ(c, e)
    return im_keyref(c.run, r, p)
def o_get(kind):
    def f(c, e):
        r, k, p = occ(c, e)
        return im_ref(c.run, r, p, kind)
    return f
def o_insert(c, e, v):
    r, k, p = occ(c, e)
    return im_put(c.run, r, k, v)
def o_remove(c, e):
    r, k, p = occ(c, e)
    return im_del(c.run, r, k, "swap")[1]
def o_remove_entry(c, e):
    r, k, p = occ(c, e)
    return Adt(c.ret, None, list(im_del(c.run, r, k, "swap")))
def v_key(c, e):
    return c.mkref(vac(c, e)[1], "shared", VAL)
def v_into_key(c, e):
    return vac(c, e)[1]
def v_insert(c, e, v):
    r, k = vac(c, e)
    im_put(c.run, r, k, v)
    return im_ref(c.run, r, im_pos(c.run, r, k), "mut")
def split(c, e):
    e = deep(c.run, e)
    v = c.case(e)
    return v, c.field(e, v, 0, "mapping::%sEntry" % v)
def e_key(c, e):
    v, x = split(c, e)
    return o_key(c, x) if v == "Occupied" else v_key(c, x)
def e_or_insert(c, e, d):
    v, x = split(c, e)
    return o_get("mut")(c, x) if v == "Occupied" else v_insert(c, x, d)
def e_or_insert_with(c, e, f):
    """the default is computed only for a vacant entry"""
    v, x = split(c, e)
    return o_get("mut")(c, x) if v == "Occupied" else v_insert(c, x, callv(c, f, [], [], VAL))
def e_and_modify(c, e, f):
    v, x = split(c, e)
    if v == "Occupied":
        callv(c, f, [o_get("mut")(c, x)], ["&mut value::Value"], "()")
    return Adt(c.ret, v, [x])

# ------------------------------------------------------------------ [] on a Mapping
def m_index(mut):
    def f(c, m, i):
        """panics when the key is not there"""
        r = uninterp(c.run, "Index::" + ("index_into_mut" if mut else "index_into"), [c.mkref(i, "shared", "I"), m],
                     "std::option::Option<&%svalue::Value>" % ("mut " if mut else ""))
        if c.case(r) == "None": c.panic()
        return c.field(r, "Some", 0, c.ret)
    return f

# ------------------------------------------------------------------ serialize
def pair_at(c, m, i):
    return im_keyref(c.run, m, i), c.mkref(im_val(c.run, m, i), "shared", VAL)
def iter_pos(run, cell):
    v = run.load(cell)
    while isinstance(v, Adt) and len(v.fields) == 1:
        v = v.fields[0]
    return v.fields[1]
def left(ity):
    """how much an iterator has still to give: the measure of the loop over it"""
    def m(run, view):
        v = run.load(view.var(ity))
        while isinstance(v, Adt) and len(v.fields) == 1:
            v = v.fields[0]
        x = v.fields[0]
        while isinstance(x, Ref): x = run.load(x.cell, x.path)
        n = vec_len(run, x) if ity.startswith("std::vec") else im_len(run, x)
        return z3.If(v.fields[1] < n, n - v.fields[1], z3.IntVal(0))
    return m
SM = "<S as serde::Serializer>::SerializeMap"
def ser_end(c, ms):
    return uninterp(c.run, "SerializeMap::end", [ms], c.ret)
def m_serialize(c, m, s):
    """one map of the mapping's length with its entries in order"""
    if getattr(c.run, "collected", False): return m_ser_call(c, m, s)
    r = uninterp(c.run, "Serializer::serialize_map", [s, some("std::option::Option<usize>", m_len(c, m))], "std::result::Result<%s, <S as serde::Serializer>::Error>" % SM)
    ms = q2(c, r, SM)
    return c.tail("entries", ms, z3.IntVal(0))
def m_ser_call(c, m, s):
    """the function that m_serialize defines"""
    c.run.delegated = True
    return uninterp(c.run, "Serialize::serialize", [deep(c.run, m), s], c.ret)
def m_ser_step(c, args, ms, i):
    m = im(c, args[0])
    if not c.branch(i < im_len(c.run, m)):
        return ser_end(c, ms)
    k, v = pair_at(c, m, i)
    cell = c.alloc(ms)
    r = lib3.ser_entry(c.run, Ref(cell, (), "mut", SM), k, v, "std::result::Result<(), <S as serde::Serializer>::Error>")
    q2(c, r, "()")
    return c.tail("entries", c.load(cell), i + 1)
def q2(c, r, ty):
    """? on a client's error type"""
    if c.case(r) == "Err":
        raise Return(err(c.ret, c.field(r, "Err", 0, T(r.ty)[1])))
    return c.field(r, "Ok", 0, ty)
def map_ser_loop(name="entries", sty=SM, ity="mapping::Iter"):
    def state(view):
        return [view.run.load(view.var(sty)), iter_pos(view.run, view.var(ity))]
    return state

# ------------------------------------------------------------------ deserialize
def m_deserialize(c, d):
    return uninterp(c.run, "Deserializer::deserialize_map", [d, Adt("Visitor", None, [])], c.ret)
def m_visit_unit(c, v):
    return ok(c.ret, mkmap(im_empty(c.run)))
def m_visit_map(c, v, a):
    """every entry is read; a repeated key is an error"""
    return c.tail("entries", mkmap(im_empty(c.run)), a)
def m_visit_step(c, args, m, a):
    run = c.run
    acc = c.alloc(a); mm = c.alloc(m)
    ar = Ref(acc, (), "mut", "A")
    et = T(c.ret)[1]
    k = q2(c, uninterp(run, "MapAccess::next_key", [ar], "std::result::Result<std::option::Option<%s>, %s>" % (VAL, et)), "std::option::Option<%s>" % VAL)
    if c.case(k) == "None":
        return ok(c.ret, c.load(mm))
    key = c.field(k, "Some", 0, VAL)
    mr = Ref(mm, (), "mut", MAP)
    e = m_entry(at_ret(c, "mapping::Entry"), mr, key)
    if e.variant == "Occupied":
        return err(c.ret, uninterp(run, "Error::custom", [dup_text(c, key_in(c, e))], et))
    v = q2(c, uninterp(run, "MapAccess::next_value", [ar], "std::result::Result<%s, %s>" % (VAL, et)), VAL)
    v_insert(c, e.fields[0], v)
    return c.tail("entries", c.load(mm), c.load(acc))
def at_ret(c, ret):
    from engine import SpecCtx
    return SpecCtx(c.run, c.tys, ret)
def key_in(c, e):
    return deep(c.run, o_key(c, e.fields[0]))
def dup_key(c, k):
    """says which key when it is a scalar"""
    v = c.case(k)
    if v == "Null": return S("with null key")
    if v == "Bool": return z3.Concat(S("with key `"), display_text(c.run, None, "bool", c.field(k, v, 0, "bool")), S("`"))
    if v == "Number": return z3.Concat(S("with key "), display_text(c.run, None, "number::Number", c.field(k, v, 0, "number::Number")))
    if v == "String": return z3.Concat(S("with key "), c.run.app("debug:str", [c.field(k, v, 0, "std::string::String")], STR))
    return S("in YAML map")
def dup_text(c, k):
    return z3.Concat(S("duplicate entry "), dup_key(c, k))
def dup_fmt(c, s, f):
    e = c.field(deep(c.run, s), None, 0, "mapping::OccupiedEntry")
    k = deep(c.run, o_key(c, e))
    r = write(c, f, "duplicate entry ")
    if c.case(r) == "Err": return r
    return write(c, f, dup_key(c, k))

def register(R):
    C = ("C07",)
    R.add("<Mapping as Serialize>::serialize", m_serialize, ("C07", "C17", "C02"), loops={0: exe.TailLoop("entries", map_ser_loop(), m_ser_step, decreases=left("mapping::Iter"))}, opaque=m_ser_call)
    R.assume(C + ("C17",), "serde: a client's collect_map(iterator) is one map of the iterator's exact length with its entries in order")
    R.add("<Mapping as Deserialize>::deserialize", m_deserialize, C)
    R.add("<Visitor as Visitor>::expecting", lambda c, s, f: write(c, f, "a YAML mapping"), C)
    R.add("<Visitor as Visitor>::visit_unit", m_visit_unit, C)
    R.add("<Visitor as Visitor>::visit_map", m_visit_map, ("C07", "C12", "C18"), opaque=True,
          loops={0: exe.TailLoop("entries", lambda view: [view.run.load(view.var(MAP)), view.run.load(view.var("A"))], m_visit_step)})
    R.add("<DuplicateKeyError as Display>::fmt", dup_fmt, ("C07", "C16"))
    for self_, k in (("Value", "self"), ("str", "str"), ("String", "str")):
        R.add("<%s as Index>::is_key_into" % self_, kis_key(k), C)
        R.add("<%s as Index>::index_into in src/mapping.rs" % self_, kindex(k, False), C)
        R.add("<%s as Index>::index_into_mut in src/mapping.rs" % self_, kindex(k, True), C)
        for how in ("swap", "shift"):
            R.add("<%s as Index>::%s_remove_from" % (self_, how), kremove(k, how, False), C)
            R.add("<%s as Index>::%s_remove_entry_from" % (self_, how), kremove(k, how, True), C)
    for n in "is_key_into swap_remove_from swap_remove_entry_from shift_remove_from shift_remove_entry_from".split():
        R.add("<&T as Index>::" + n, deref_index(n), C, modular=False)
    for n in ("index_into", "index_into_mut"):
        R.add("<&T as Index>::%s in src/mapping.rs" % n, deref_index(n), C, modular=False)
    R.add("<HashLikeValue as Equivalent>::equivalent", hl_equivalent, C)
    R.add("<HashLikeValue as Hash>::hash", hl_hash, ("C07", "C05"))
    R.add("Mapping::new", m_new, C)
    R.add("<Mapping as Default>::default", m_new, C)
    R.add("Mapping::with_capacity", m_with_capacity, C)
    R.add("Mapping::reserve", m_unchanged, C)
    R.add("Mapping::shrink_to_fit", m_unchanged, C)
    R.add("Mapping::insert", m_insert, C)
    R.add("Mapping::len", m_len, C)
    R.add("Mapping::is_empty", m_is_empty, C)
    R.add("Mapping::clear", m_clear, C)
    R.add("Mapping::entry", m_entry, C)
    R.add("Mapping::contains_key", through("is_key_into"), C, modular=False)
    R.add("Mapping::get", through("index_into"), C, modular=False)
    R.add("Mapping::get_mut", through("index_into_mut"), C, modular=False)
    for n, t in dict(remove="swap_remove_from", remove_entry="swap_remove_entry_from", swap_remove="swap_remove_from", swap_remove_entry="swap_remove_entry_from",
                     shift_remove="shift_remove_from", shift_remove_entry="shift_remove_entry_from").items():
        R.add("Mapping::" + n, through(t), C, modular=False)
    R.add("Mapping::retain", m_opaque("retain"), C)
    R.add("Mapping::capacity", m_opaque("capacity"), C)
    R.add("<Mapping as Extend>::extend", m_opaque("extend"), C)
    R.add("<Mapping as FromIterator>::from_iter", m_from_iter, C)
    for n, ity, kind in (("iter", "Iter", "shared"), ("iter_mut", "IterMut", "mut"), ("keys", "Keys", "shared"), ("values", "Values", "shared"),
                         ("values_mut", "ValuesMut", "mut"), ("into_keys", "IntoKeys", None), ("into_values", "IntoValues", None)):
        R.add("Mapping::" + n, m_iter(ity, kind), C)
    for t, ity, kind in (("&Mapping", "Iter", "shared"), ("&mut Mapping", "IterMut", "mut"), ("Mapping", "IntoIter", None)):
        R.add("<%s as IntoIterator>::into_iter" % t, m_iter(ity, kind), C)
    for t in "Iter IterMut IntoIter Keys Values ValuesMut IntoKeys IntoValues".split():
        R.add("<%s as Iterator>::next" % t, it_next, C, modular=False)
        R.add("<%s as Iterator>::size_hint" % t, it_size("size_hint"), C, modular=False)
        R.add("<%s as ExactSizeIterator>::len" % t, it_size("len"), C, modular=False)
    R.add("OccupiedEntry::key", o_key, C)
    R.add("OccupiedEntry::get", o_get("shared"), C)
    R.add("OccupiedEntry::get_mut", o_get("mut"), C)
    R.add("OccupiedEntry::into_mut", o_get("mut"), C)
    R.add("OccupiedEntry::insert", o_insert, C)
    R.add("OccupiedEntry::remove", o_remove, C)
    R.add("OccupiedEntry::remove_entry", o_remove_entry, C)
    R.add("VacantEntry::key", v_key, C)
    R.add("VacantEntry::into_key", v_into_key, C)
    R.add("VacantEntry::insert", v_insert, C)
    R.add("Entry::key", e_key, C)
    R.add("Entry::or_insert", e_or_insert, C)
    R.add("Entry::or_insert_with", e_or_insert_with, C)
    R.add("Entry::and_modify", e_and_modify, C)
    R.add("<Mapping as Index>::index", m_index(False), C, panics=True)
    R.add("<Mapping as IndexMut>::index_mut", m_index(True), C, panics=True)
