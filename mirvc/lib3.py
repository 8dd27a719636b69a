"""Assumed contracts, continued: iterators over slices and vectors, indexmap."""
import re
import z3
from vc import *
import exe
from exe import *
from lib import *
from lib import LIB
from mir import short

# An iterator over a sequence is (sequence, position of the next element, end).
SEQIT = r"(std::vec::|std::slice::|std::array::|core::array::)?(IntoIter|Iter|IterMut)"

def it_parts(run, v):
    s = run.field(v, None, 0, "seq")
    p = run.field(v, None, 1, "usize")
    return s, p

def seq_iter(run, ret, s):
    return Adt(ret, None, [s, z3.IntVal(0)])

def seq_len(run, s):
    s = deep(run, s)
    if is_z3(s):
        return z3.Length(s)
    if isinstance(s, Adt):
        return z3.IntVal(len(s.fields))
    return vec_len(run, s)

@lib("re:<(Vec|&Vec|&mut Vec|&?\\[.*\\]) as IntoIterator>::into_iter", "re:core::slice::<impl \\[.*\\]>::(iter|iter_mut)", "re:std::vec::Vec::(iter|iter_mut)")
def into_iter(run, c):
    v = c.args[0]
    if "[u8]" not in c.tys[0] and (c.tys[0] in STRTY or re.sub(r"^(&mut |&)+", "", c.tys[0]) in STRTY):
        return NotImplemented
    if c.ret.startswith(("std::slice::IterMut", "core::slice::IterMut")):
        return Adt(c.ret, None, [v, z3.IntVal(0)])
    return seq_iter(run, c.ret, deep(run, v))

def it_elem_ty(run, ty):
    return ty_args(ty)[-1]

@lib("re:<%s as Iterator>::next" % SEQIT)
def seq_next(run, c):
    r = c.args[0]
    ty = pointee(c.tys[0])
    if not ty.startswith(("std::vec::IntoIter", "std::array::IntoIter", "core::array::IntoIter", "std::slice::Iter", "core::slice::Iter")):
        return NotImplemented
    v = run.load(r.cell, r.path)
    s, p = it_parts(run, v)
    n = seq_len(run, s)
    if not run.branch(p < n):
        return none(c.ret)
    t = ty_args(c.ret)[0]
    if t.startswith("&mut "):
        if not isinstance(s, Ref):
            return NotImplemented
        x = Ref(s.cell, s.path + (("#", simp_idx(p), t[5:]),), "mut", t[5:])
    elif t.startswith("&"):
        e = run.elem(deep(run, s), p, t[1:] if t not in STRTY else t)
        x = e if is_z3(e) and e.sort() == STR else run.mkref(e, "shared", t[1:])
    else:
        x = run.elem(deep(run, s), p, t)
    run.store(r.cell, r.path, run.set_field(v, None, 1, p + 1))
    return some(c.ret, x)

@lib("re:<%s as ExactSizeIterator>::len" % SEQIT, "re:<%s as Iterator>::size_hint" % SEQIT)
def seq_it_len(run, c):
    ty = pointee(c.tys[0])
    if not ty.startswith(("std::vec::IntoIter", "std::array::IntoIter", "core::array::IntoIter", "std::slice::Iter", "core::slice::Iter")):
        return NotImplemented
    s, p = it_parts(run, deep(run, c.args[0]))
    n = z3.If(seq_len(run, s) - p >= 0, seq_len(run, s) - p, 0)
    if c.method == "len":
        return n
    return Adt(c.ret, None, [n, some("std::option::Option<usize>", n)])

@lib("re:<%s as Iterator>::(map|cloned|copied)" % SEQIT, "re:<(Cloned|Copied|Map) as Iterator>::(map|cloned|copied)")
def it_map(run, c):
    it = c.args[0]
    ity = c.tys[0]
    f = c.args[1] if c.method == "map" else None
    return Adt(c.ret, None, [it, Adt("adapter", None, [f] if f is not None else []), Sym(z3.Const("ty:" + ity, U), ity)])

def chain_fn(run, c, it, ty):
    """(base sequence value, position, element function) of an iterator chain, or None"""
    if ty.startswith(("std::vec::IntoIter", "std::array::IntoIter", "core::array::IntoIter", "std::slice::Iter", "core::slice::Iter")):
        s, p = it_parts(run, it)
        s = deep(run, s)
        t = ty_args(ty)[0] if not ty.startswith(("std::slice::", "core::slice::")) else ty_args(ty)[-1]
        isref = "slice::Iter" in ty
        return s, p, lambda i: run.elem(s, i, t), t, ()
    if isinstance(it, Adt) and len(it.fields) == 3 and isinstance(it.fields[1], Adt) and it.fields[1].ty == "adapter":
        b = chain_fn(run, c, it.fields[0], it.fields[2].ty)
        if b is None:
            return None
        s, p, f, t, tag = b
        if not it.fields[1].fields:
            return s, p, f, t, tag + ("clone",)
        g = it.fields[1].fields[0]
        rt = None
        tag = tag + (g.path if isinstance(g, FnDef) else str(run.term(g)),)
        return s, p, (lambda i, f=f, g=g, t=t: (g, f(i), t)), t, tag
    return None

@lib("re:<(Map|Cloned|Copied|IntoIter|Iter|.*) as Iterator>::collect")
def collect(run, c):
    ty = c.tys[0]
    if not c.ret.startswith(("std::vec::Vec<", "Vec<")):
        return NotImplemented
    ch = chain_fn(run, c, c.args[0], ty)
    if ch is None:
        return NotImplemented
    s, p, f, t, tag = ch
    if not (z3.is_int_value(z3.simplify(p)) and z3.simplify(p).as_long() == 0):
        return NotImplemented
    et = ty_args(c.ret)[0]
    def el(i):
        r = f(i)
        if isinstance(r, tuple):
            g, x, tt = r
            if isinstance(x, tuple):
                raise Unsupported("two maps")
            return call_value(run, c.frame, g, [x], [tt], et)
        return r
    term = run.app("collect:" + "|".join(tag) + (":str" if is_z3(s) else ""), [run.term(s)], U)
    run.keep = getattr(run, "keep", []); run.keep.append(term)
    run.axiom(run.app("len", [term], INT) == seq_len(run, s))
    run.seqdef[term.get_id()] = el
    return Sym(term, c.ret)

# ------------------------------------------------------------------ indexmap
# deterministic functions of the map (and key): what they mean is indexmap's documentation
# A map m is a finite sequence of entries: len(m), key keyat(m, i), value at(m, i), and pos(m, k), the position of the
# entry with a key equal to k, or -1.  put / swapdel / shiftdel / ... build new maps.
IM = "indexmap::IndexMap<value::Value, value::Value>"
VAL = "value::Value"

def im_term(run, m):
    m = deep(run, m)
    return run.term(m)

def im_len(run, m):
    n = run.app("im.len", [im_term(run, m)], INT)
    run.axiom(z3.And(n >= 0, n <= 2**63 - 1))
    return n

def im_pos(run, m, k):
    t = im_term(run, m)
    p = run.app("im.pos", [t, run.term(deep(run, k))], INT)
    run.axiom(z3.And(p >= -1, p < im_len(run, m)))
    return p

def im_has(run, m, k):
    return im_pos(run, m, k) >= 0

def im_empty(run, ty=IM):
    e = z3.Const("im.empty", U)
    run.axiom(run.app("im.len", [e], INT) == 0)
    return Sym(e, ty)

def im_keyref(run, m, i):
    return run.mkref(im_key(run, m, i), "shared", VAL)

def im_key(run, m, i):
    return run.mat(run.app("im.key", [im_term(run, m), i if is_z3(i) else z3.IntVal(i)], U), VAL)

def im_val(run, m, i):
    return run.elem(deep(run, m), i, VAL)

def im_ref(run, r, i, kind):
    """a reference to the value of entry i of the map that r refers to"""
    return Ref(r.cell, r.path + (("#", simp_idx(i), VAL),), kind, VAL)

def im_put(run, r, k, v):
    """store v under k; -> what was there"""
    m = run.load(r.cell, r.path)
    t = im_term(run, m)
    kt = run.term(k)
    had = run.branch(im_has(run, m, k))
    old = im_val(run, m, im_pos(run, m, k)) if had else None
    n = run.app("im.put", [t, kt, run.term(v)], U)
    new = Sym(n, m.ty)
    run.axiom(im_len(run, new) == im_len(run, m) + (0 if had else 1))
    p = im_pos(run, new, k)
    run.axiom(p == (im_pos(run, m, k) if had else im_len(run, m)))
    el = run.app("at", [n, p], U)
    run.axiom(el == run.term(v))
    run.store(r.cell, r.path, new)
    return old

def im_del(run, r, k, how):
    """take out the entry of k, if any; how: swap (the last entry takes its place) or shift"""
    m = run.load(r.cell, r.path)
    t = im_term(run, m)
    if not run.branch(im_has(run, m, k)):
        return None
    p = im_pos(run, m, k)
    key, v = im_key(run, m, p), im_val(run, m, p)
    new = Sym(run.app("im.%s_remove" % how, [t, run.term(deep(run, k))], U), m.ty)
    run.axiom(im_len(run, new) == im_len(run, m) - 1)
    run.axiom(im_pos(run, new, k) == -1)
    run.store(r.cell, r.path, new)
    return key, v

def im_lookup_key(run, v, ty):
    """the Value a lookup key stands for: itself, or the string of a HashLikeValue (its Hash and Equivalent are under contract)"""
    v = deep(run, v)
    ty = re.sub(r"^(&mut |&)+", "", ty)
    if strip_ty_generics(ty).endswith("HashLikeValue"):
        return Adt(VAL, "String", [strof(run, run.field(v, None, 0, "&str"))])
    if ty == VAL:
        return v
    raise Unsupported("map key of type " + ty)

@lib("re:indexmap::IndexMap::(insert|contains_key|get|get_mut|swap_remove|swap_remove_entry|shift_remove|shift_remove_entry|len|is_empty|clear|reserve|shrink_to_fit|with_capacity|new|entry|iter|iter_mut|keys|values|values_mut|into_keys|into_values|get_index_of|get_full|get_key_value)", "re:<IndexMap as Default>::default")
def indexmap(run, c):
    m = c.method
    if m in ("new", "default", "with_capacity"):
        return im_empty(run, c.ret)
    r = c.args[0]
    if m == "len": return im_len(run, r)
    if m == "is_empty": return im_len(run, r) == 0
    if m in ("reserve", "shrink_to_fit"): return UNIT
    if m == "clear":
        run.store(r.cell, r.path, im_empty(run, pointee(c.tys[0])))
        return UNIT
    if m in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values"):
        return im_iter(run, r, c.ret)
    if m == "entry":
        k = c.args[1]
        t = c.ret
        base = "indexmap::map::%sEntry<" + ", ".join(ty_args(t)) + ">"
        v = "Occupied" if run.branch(im_has(run, r, k)) else "Vacant"
        return Adt(t, v, [Adt(base % v, None, [r, k])])
    if m == "insert":
        old = im_put(run, r, c.args[1], c.args[2])
        return none(c.ret) if old is None else some(c.ret, old)
    k = im_lookup_key(run, c.args[1], c.tys[1])
    if m == "contains_key":
        return im_has(run, r, k)
    if m in ("get", "get_mut"):
        if not run.branch(im_has(run, r, k)):
            return none(c.ret)
        return some(c.ret, im_ref(run, r, im_pos(run, r, k), "mut" if m == "get_mut" else "shared"))
    if m == "get_index_of":
        return some(c.ret, im_pos(run, r, k)) if run.branch(im_has(run, r, k)) else none(c.ret)
    if m.startswith(("swap_remove", "shift_remove")):
        kv = im_del(run, r, k, m.split("_")[0])
        if kv is None: return none(c.ret)
        return some(c.ret, Adt(ty_args(c.ret)[0], None, list(kv)) if m.endswith("_entry") else kv[1])
    return NotImplemented

def im_iter(run, m, ty):
    """(map, position of the next entry)"""
    return Adt(ty, None, [m, z3.IntVal(0)])

IMITER = r"(indexmap::map::)?(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues)"

@lib("re:<(&mut |&)?IndexMap as IntoIterator>::into_iter")
def im_into_iter(run, c):
    return im_iter(run, c.args[0], c.ret)

def im_fields(run, v):
    k = short(v.ty)
    mty = {"IterMut": "&mut ", "ValuesMut": "&mut ", "Iter": "&", "Keys": "&", "Values": "&"}.get(k, "") + IM
    return k, run.field(v, None, 0, mty), run.field(v, None, 1, "usize")

@lib("re:<%s as Iterator>::next" % IMITER)
def im_next(run, c):
    r = c.args[0]
    ty = pointee(c.tys[0])
    if not ty.startswith("indexmap::map::"):
        return NotImplemented
    v = run.load(r.cell, r.path)
    k, m, p = im_fields(run, v)
    if not run.branch(p < im_len(run, m)):
        return none(c.ret)
    p = z3.simplify(p)
    key = (lambda: im_key(run, m, p)) if k.startswith("Into") else (lambda: im_keyref(run, m, p))
    if k.endswith("Mut"):
        val = lambda: im_ref(run, m, p, "mut")
    elif k.startswith("Into"):
        val = lambda: im_val(run, m, p)
    else:
        val = lambda: run.mkref(im_val(run, m, p), "shared", VAL)
    t = ty_args(c.ret)[0]
    x = key() if k.endswith("Keys") else val() if k in ("Values", "ValuesMut", "IntoValues") else Adt(t, None, [key(), val()])
    run.store(r.cell, r.path, run.set_field(v, None, 1, p + 1))
    return some(c.ret, x)

@lib("re:<%s as ExactSizeIterator>::len" % IMITER, "re:<%s as Iterator>::size_hint" % IMITER)
def im_it_len(run, c):
    ty = pointee(c.tys[0])
    if not ty.startswith("indexmap::map::"):
        return NotImplemented
    k, m, p = im_fields(run, deep(run, c.args[0]))
    n = z3.If(im_len(run, m) - p >= 0, im_len(run, m) - p, 0)
    return n if c.method == "len" else Adt(c.ret, None, [n, some("std::option::Option<usize>", n)])

def ent(run, e):
    """(the map an entry is of, its key)"""
    e = deep(run, e)
    return run.field(e, None, 0, "&mut " + IM), run.field(e, None, 1, VAL)

@lib("re:indexmap::map::OccupiedEntry::(key|get|get_mut|into_mut|insert|swap_remove|swap_remove_entry|shift_remove|shift_remove_entry|remove|remove_entry|index)")
def im_occupied(run, c):
    r, k = ent(run, c.args[0])
    p = im_pos(run, r, k)
    m = c.method
    run.axiom(p >= 0)                   # an OccupiedEntry is an entry of its map
    if m == "key": return im_keyref(run, r, p)
    if m == "index": return p
    if m in ("get", "get_mut", "into_mut"):
        return im_ref(run, r, p, "shared" if m == "get" else "mut")
    if m == "insert":
        return im_put(run, r, k, c.args[1])
    kv = im_del(run, r, k, "swap" if m.startswith(("swap", "remove")) else "shift")
    return Adt(c.ret, None, list(kv)) if m.endswith("_entry") else kv[1]

@lib("re:indexmap::map::VacantEntry::(key|into_key|insert|index)")
def im_vacant(run, c):
    r, k = ent(run, c.args[0])
    m = c.method
    run.axiom(im_pos(run, r, k) == -1)
    if m == "key": return run.mkref(k, "shared", VAL)
    if m == "into_key": return k
    if m == "index": return im_len(run, r)
    im_put(run, r, k, c.args[1])
    return im_ref(run, r, im_pos(run, r, k), "mut")

@lib("indexmap::IndexMap::capacity", "indexmap::IndexMap::retain", "re:<IndexMap as (FromIterator|Extend)>::(from_iter|extend)")
def im_opaque(run, c):
    """deterministic functions that this crate only passes on"""
    return uninterp(run, "im." + c.method, c.args, c.ret)

# ---- boxes and vectors compare and hash as what they hold
@lib("re:<Box as Hash>::hash", "re:<Box as (PartialOrd|Ord)>::(partial_cmp|cmp)")
def box_forward(run, c):
    t = ty_args(c.selfty)[0]
    inner = lambda v: deep1(run, deep1(run, v)) if isinstance(deep1(run, v), Ref) else deep1(run, v)
    n = 1 if c.method == "hash" else 2
    vals = []
    for v in c.args[:n]:
        x = deep(run, v)
        vals.append(run.mkref(x, "shared", t))
    tr = {"hash": "std::hash::Hash", "partial_cmp": "std::cmp::PartialOrd", "cmp": "std::cmp::Ord"}[c.method]
    return call_path(run, c.frame, "<%s as %s>::%s" % (t, tr, c.method), vals + list(c.args[n:]), ["&" + t] * n + list(c.tys[n:]), c.ret)

# ---- serde's own impls
@lib("re:<&.* as Serialize>::serialize")
def ref_serialize(run, c):
    """a reference serializes as what it refers to"""
    t = re.sub(r"^(&mut |&)", "", c.selfty.strip()).strip()
    t = re.sub(r"^('\w+ )?(mut )?", "", t)
    x = c.args[0]
    if not (is_z3(x) and x.sort() == STR):
        x = deep1(run, x)
    return call_path(run, c.frame, "<%s as serde::Serialize>::serialize::<%s>" % (t, c.tys[1]), [x, c.args[1]], ["&" + t, c.tys[1]], c.ret)

@lib("re:<Box as Serialize>::serialize")
def box_serialize(run, c):
    t = ty_args(c.selfty)[0]
    return call_path(run, c.frame, "<%s as serde::Serialize>::serialize::<%s>" % (t, c.tys[1]), [run.mkref(deep(run, c.args[0]), "shared", t), c.args[1]], ["&" + t, c.tys[1]], c.ret)

@lib("re:<Vec as Serialize>::serialize")
def vec_serialize(run, c):
    """serde: serializer.collect_seq(self), that is one seq of that length with the elements in order"""
    return uninterp(run, "Serializer::collect_seq", [c.args[1], deep(run, c.args[0])], c.ret)

@lib("re:<(str|String) as Serialize>::serialize")
def str_serialize(run, c):
    return call_path(run, c.frame, "<%s as serde::Serializer>::serialize_str" % c.tys[1], [c.args[1], strof(run, c.args[0])], [c.tys[1], "&str"], c.ret)

@lib("re:<.* as Serializer>::collect_map")
def collect_map(run, c):
    """serde: one map of the iterator's exact length with its entries in order, which is what Mapping's Serialize writes"""
    if not is_param(c.selfty) or short(re.sub(r"^&(mut )?", "", c.tys[1])) != "Mapping": return NotImplemented
    run.collected = True
    return uninterp(run, "Serialize::serialize", [deep(run, c.args[1]), c.args[0]], c.ret)

def ser_entry(run, m, k, v, ret):
    """serde: an entry is its key, then its value"""
    r = uninterp(run, "SerializeMap::serialize_key", [m, k], ret)
    if run.case(r) == "Err": return r
    return uninterp(run, "SerializeMap::serialize_value", [m, v], ret)

@lib("re:<.* as SerializeMap>::serialize_entry")
def client_entry(run, c):
    if not is_param(c.selfty): return NotImplemented
    return ser_entry(run, c.args[0], c.args[1], c.args[2], c.ret)

@lib("re:<.* as Hasher>::write_([ui]\\d+|[ui]size)")
def hasher_write(run, c):
    """an integer's Hash writes it so"""
    return uninterp(run, "hash:" + c.method[6:], [deep(run, c.args[1]), c.args[0]], "()")

@lib("re:<Vec as Hash>::hash")
def vec_hash(run, c):
    return uninterp(run, "hash:seq", [deep(run, c.args[0]), c.args[1]], "()")

@lib("re:<Vec as PartialOrd>::partial_cmp")
def vec_cmp(run, c):
    return uninterp(run, "seq <=> seq", [deep(run, c.args[0]), deep(run, c.args[1])], c.ret)

@lib("std::hash::DefaultHasher::new")
def default_hasher(run, c):
    return uninterp(run, "DefaultHasher::new", [], c.ret)

@lib("re:<DefaultHasher as Hasher>::finish")
def hasher_finish(run, c):
    return uninterp(run, "Hasher::finish", c.args, c.ret)

def at_generic_point(run, f, tys):
    """a function, known by its value at arbitrary arguments: two functions that agree there are equal"""
    xs = [run.mat(z3.Const("any:%d:%s" % (i, t), sort_of(t)), t) for i, t in enumerate(tys)]
    return call_value(run, run.frames[-1] if run.frames else None, f, xs, tys, "std::cmp::Ordering")

@lib("re:<Vec as FromIterator>::from_iter")
def vec_from_iter(run, c):
    return uninterp(run, "Vec::from_iter", [deep(run, c.args[0])], c.ret)

@lib("re:std::slice::<impl \\[.*\\]>::sort_by", "re:core::slice::<impl \\[.*\\]>::sort_by", "re:alloc::slice::<impl \\[.*\\]>::sort_by")
def sort_by(run, c):
    r = c.args[0]
    while isinstance(run.load(r.cell, r.path), Ref):
        r = run.load(r.cell, r.path)
    v = run.load(r.cell, r.path)
    t = re.search(r"<impl \[(.*)\]>", c.path).group(1)
    o = at_generic_point(run, c.args[1], ["&" + t, "&" + t])
    run.store(r.cell, r.path, uninterp(run, "sort_by", [v, o], v.ty))
    return UNIT
