"""value/index.rs: C08"""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm
from contracts.c_mapping import IM, VAL, MAP, im_has, im_pos, im_ref, im_put, im_empty
SEQ = cv.SEQ
OPT = "std::option::Option<&%svalue::Value>"

def map_ref(r, kind):
    return Ref(r.cell, r.path + (("Mapping", 0, MAP), (None, 0, IM)), kind, IM)
def usize_key(c, i):
    return Adt(VAL, "Number", [mknum("PosInt", deep(c.run, i))])

def place(c, v, mut):
    """the untagged value, as a place"""
    return cv.umut(c.run, v) if mut else cv.untag_ref(c, v)
def usize_into(mut):
    def f(c, i, v):
        """element i of a sequence, the entry with integer key i of a mapping, nothing else"""
        run = c.run
        kind = "mut" if mut else "shared"
        r = place(c, v, mut)
        k = c.case(c.load(r.cell, r.path))
        i = deep(run, i)
        if k == "Sequence":
            s = r.path + (("Sequence", 0, SEQ),)
            if not c.branch(i < vec_len(run, c.load(r.cell, s))): return none(c.ret)
            return some(c.ret, Ref(r.cell, s + (("#", simp_idx(i), VAL),), kind, VAL))
        if k == "Mapping":
            return entry_of(c, map_ref(r, kind), usize_key(c, i), kind)
        return none(c.ret)
    return f
def entry_of(c, m, key, kind):
    if not c.branch(im_has(c.run, m, key)): return none(c.ret)
    return some(c.ret, im_ref(c.run, m, im_pos(c.run, m, key), kind))
def key_into(k, mut):
    def f(c, s, v):
        """the entry with that key of a mapping, nothing else"""
        kind = "mut" if mut else "shared"
        r = place(c, v, mut)
        if c.case(c.load(r.cell, r.path)) != "Mapping": return none(c.ret)
        return entry_of(c, map_ref(r, kind), cm.key_value(c, s, k), kind)
    return f
def generic_into(name, mut):
    """asks the mapping under the tags"""
    def f(c, s, v):
        r = place(c, v, mut)
        if c.case(c.load(r.cell, r.path)) != "Mapping": return none(c.ret)
        m = Ref(r.cell, r.path + (("Mapping", 0, MAP),), "mut" if mut else "shared", MAP)
        i = c.mkref(s, "shared", "&I")
        return uninterp(c.run, "Index::" + name, [s if isinstance(s, Ref) else c.mkref(s, "shared", "I"), m], c.ret)
    return f

def get_or_put(c, m, key):
    """the entry of that key, a new null entry if there was none"""
    if not c.branch(im_has(c.run, m, key)):
        im_put(c.run, m, key, Adt(VAL, "Null", []))
    return im_ref(c.run, m, im_pos(c.run, m, key), "mut")
def usize_or_insert(c, i, v):
    """panics out of range and on scalars; a missing entry of a mapping is added as null"""
    run = c.run
    r = cv.umut(run, v)
    k = c.case(c.load(r.cell))
    i = deep(run, i)
    if k == "Sequence":
        s = (("Sequence", 0, SEQ),)
        if not c.branch(i < vec_len(run, c.load(r.cell, s))): c.panic("out of range")
        return Ref(r.cell, s + (("#", simp_idx(i), VAL),), "mut", VAL)
    if k == "Mapping":
        return get_or_put(c, map_ref(r, "mut"), usize_key(c, i))
    c.panic("not indexable")
def key_or_insert(k):
    def f(c, s, v):
        """null becomes a mapping; a missing entry is added as null; panics on anything else"""
        run = c.run
        key = cm.key_value(c, s, k)
        r0 = run.load(v.cell, v.path)
        if c.branch(c.is_variant(r0, "Null")):
            run.store(v.cell, v.path, Adt(VAL, "Mapping", [cm.mkmap(im_empty(run))]))
            return get_or_put(c, map_ref(v, "mut"), key)
        r = cv.umut(run, v)
        if c.case(c.load(r.cell)) != "Mapping": c.panic("not a mapping")
        return get_or_put(c, map_ref(r, "mut"), key)
    return f
def any_key_or_insert(c, s, v):
    k = "str" if c.tys[0] in STRTY else "self" if c.tys[0] == "&" + VAL else None
    if k is None: raise Unsupported("index of type " + c.tys[0])
    return key_or_insert(k)(c, s, v)

def type_name(c, s, f):
    v = deep(c.run, c.field(deep(c.run, s), None, 0, "&" + VAL))
    k = c.case(v)
    if k == "Tagged": c.panic("unreachable")
    return write(c, f, dict(Null="null", Bool="boolean", Number="number", String="string", Sequence="sequence", Mapping="mapping")[k])

NULL = Adt(VAL, "Null", [])
def v_index(c, v, i):
    """null when there is no such element"""
    r = uninterp(c.run, "Index::index_into", [c.mkref(i, "shared", "I"), v], OPT % "")
    return c.field(r, "Some", 0, "&" + VAL) if c.case(r) == "Some" else c.mkref(NULL, "shared", VAL)
def v_index_mut(c, v, i):
    return uninterp(c.run, "Index::index_or_insert", [c.mkref(i, "shared", "I"), v], c.ret)
def v_get(name):
    def f(c, v, i):
        return uninterp(c.run, "Index::" + name, [c.mkref(i, "shared", "I"), v], c.ret)
    return f

def register(R):
    C = ("C08",)
    F = " in src/value/index.rs"
    R.add("<usize as Index>::index_into", usize_into(False), C)
    R.add("<usize as Index>::index_into_mut", usize_into(True), C)
    R.add("<usize as Index>::index_or_insert", usize_or_insert, C, loops=cv.loop_under(), args=cv.under_args(1), panics=True)
    for t, k in (("Value", "self"), ("str", "str"), ("String", "str")):
        R.add("<%s as Index>::index_into%s" % (t, F), key_into(k, False), C)
        R.add("<%s as Index>::index_into_mut%s" % (t, F), key_into(k, True), C)
        R.add("<%s as Index>::index_or_insert" % t, key_or_insert(k), C, panics=True)
    for n in ("index_into", "index_into_mut"):
        R.add("<&T as Index>::" + n + F, cm.deref_index(n), C, modular=False)
    R.add("<&T as Index>::index_or_insert", cm.deref_index("index_or_insert"), C, modular=False)
    for t, I in (("str", "str"), ("Value", VAL)):
        K = dict(args=cv.under_args(1), loops=cv.loop_under(), subst={"I": I}, panics=True)
        R.add("value::index::index_or_insert_mapping", key_or_insert("str" if t == "str" else "self"), C, name="value::index::index_or_insert_mapping::<%s>" % t, **K)
    R.add("value::index::index_or_insert_mapping", any_key_or_insert, C, assumed=True, loops=cv.loop_under(), panics=True)
    R.add("<Type as Display>::fmt", type_name, C, panics=True)
    R.add("<Value as Index>::index", v_index, C, modular=False)
    R.add("<Value as IndexMut>::index_mut", v_index_mut, C, modular=False)
    R.add("Value::get", v_get("index_into"), C, modular=False)
    R.add("Value::get_mut", v_get("index_into_mut"), C, modular=False)
