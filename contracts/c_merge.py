"""Value::apply_merge (C09): a worklist of places; what one pass does to one place, entry by entry"""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm
import lib5

V, MAP, SEQ, BOXT, TAGGED = cv.V, cv.MAP, cv.SEQ, cv.BOXT, cv.TAGGED
WORK = "std::vec::Vec<&mut value::Value>"
RES = "std::result::Result<(), error::Error>"
MIT, SIT = "mapping::IntoIter", "std::vec::IntoIter<value::Value>"
OV = "std::option::Option<value::Value>"
AT = Ref(lib5.popped(V), (), "mut", V)              # the node at hand
INMAP = Ref(AT.cell, (("Mapping", 0, MAP),), "mut", MAP)

def fail(c, variant):
    raise Return(err(c.ret, new_error(c, variant)))

def mref(c, v, ty):
    return Ref(c.alloc(v), (), "mut", ty)

def next_node(c, s):
    return c.tail("nodes", c.load(s.cell, s.path))

def done_merging(c, work):
    """all values of the mapping come next"""
    s = mref(c, work, WORK)
    lib5.extend_places(c.run, s, Ref(AT.cell, INMAP.path + cm.sub(INMAP).path[len(INMAP.path):], "mut", cm.IM), z3.IntVal(0))
    return next_node(c, s)

def node(c, args, work):
    """one node: of a mapping the merge key is taken out, resolved itself, and its entries added; then everything below"""
    s = mref(c, work, WORK)
    p = lib5.pop_place(c.run, s, "&mut " + V)
    if p is None: return ok(c.ret, UNIT)
    v = c.load(p.cell)
    k = c.case(v)
    if k == "Sequence":
        lib5.extend_places(c.run, s, Ref(p.cell, (("Sequence", 0, SEQ),), "mut", SEQ), z3.IntVal(0))
    if k == "Tagged":
        b = c.field(v, k, 0, BOXT)
        lib5.push_place(c.run, s, Ref(b.cell, b.path + ((None, 1, V),), "mut", V))
    if k != "Mapping": return next_node(c, s)
    m = call(c, "mapping::Mapping::remove::<&str>", [INMAP, S("<<")], ["&mut " + MAP, "&str"], OV)
    work = c.load(s.cell)
    if c.case(m) == "None": return done_merging(c, work)
    r = mref(c, c.field(m, "Some", 0, V), V)
    q(c, callf(c, "Value::apply_merge", [r], RES), "()")
    v = c.load(r.cell)
    k = c.case(v)
    if k == "Mapping":
        return c.tail("entries", work, call(c, "<mapping::Mapping as std::iter::IntoIterator>::into_iter", [c.field(v, k, 0, MAP)], [MAP], MIT))
    if k == "Sequence":
        return c.tail("elements", work, call(c, "<%s as std::iter::IntoIterator>::into_iter" % SEQ, [c.field(v, k, 0, SEQ)], [SEQ], SIT))
    fail(c, "TaggedInMerge" if k == "Tagged" else "ScalarInMerge")

def add_entry(c, it):
    """the next entry is added unless its key is there already; false: there was none"""
    r = mref(c, it, MIT)
    x = call(c, "<mapping::IntoIter as std::iter::Iterator>::next", [r], ["&mut " + MIT], "std::option::Option<(value::Value, value::Value)>")
    if c.case(x) == "None": return None
    e = c.field(x, "Some", 0, "(value::Value, value::Value)")
    k, v = c.field(e, None, 0, V), c.field(e, None, 1, V)
    m = cm.sub(INMAP)
    if not c.branch(cm.im_has(c.run, c.load(m.cell, m.path), k)):
        cm.im_put(c.run, m, k, v)
    return c.load(r.cell)

def entries(c, args, work, it):
    """the entries of a merged mapping, in order"""
    it = add_entry(c, it)
    return done_merging(c, work) if it is None else c.tail("entries", work, it)

def entries_of(c, args, work, els, it):
    """the entries of one of several merged mappings"""
    it = add_entry(c, it)
    return c.tail("elements", work, els) if it is None else c.tail("entries of an element", work, els, it)

def elements(c, args, work, els):
    """the mappings of a merged sequence, in order"""
    r = mref(c, els, SIT)
    x = call(c, "<%s as std::iter::Iterator>::next" % SIT, [r], ["&mut " + SIT], OV)
    if c.case(x) == "None": return done_merging(c, work)
    v = c.field(x, "Some", 0, V)
    k = c.case(v)
    if k != "Mapping": fail(c, {"Sequence": "SequenceInMergeElement", "Tagged": "TaggedInMerge"}.get(k, "ScalarInMergeElement"))
    return c.tail("entries of an element", work, c.load(r.cell), call(c, "<mapping::Mapping as std::iter::IntoIterator>::into_iter", [c.field(v, k, 0, MAP)], [MAP], MIT))

def live(view, ty):
    """the local of that type that holds something"""
    out = [("l", view.fr.id, i) for i, t in view.fr.fn.locals.items() if subst_ty(t, view.fr.subst) == ty and ("l", view.fr.id, i) in view.run.mem
           and any("_%d" % i in pls for pls in view.fr.fn.debug.values())]
    if len(out) != 1: raise Unsupported("lost anchor: %d locals of type %s" % (len(out), ty))
    return view.run.load(out[0])

def loops(view):
    """which of the loops this is, by what it changes"""
    L = lambda t: view.run.load(view.var(t))
    ch = lambda t: len(view.cells(t))
    if ch(MIT) and ch(SIT) == 0 and not ch(WORK):
        seq = any(subst_ty(view.fr.fn.locals[i], view.fr.subst) == SIT and ("l", view.fr.id, i) in view.run.mem for i in view.fr.fn.locals)
        if seq: return exe.TailLoop("entries of an element", lambda v: [live(v, WORK), live(v, SIT), L(MIT)], entries_of, decreases=cm.left(MIT))
        return exe.TailLoop("entries", lambda v: [live(v, WORK), L(MIT)], entries, decreases=cm.left(MIT))
    if ch(SIT) and not ch(WORK): return exe.TailLoop("elements", lambda v: [live(v, WORK), L(SIT)], elements, decreases=cm.left(SIT))
    if ch(WORK): return exe.TailLoop("nodes", lambda v: [L(WORK)], node)
    return None

def apply_merge(c, s):
    """starts with the value itself"""
    w = mref(c, lib.vec_empty(c.run, WORK), WORK)
    lib5.push_place(c.run, w, s)
    return next_node(c, w)

def register(R):
    R.assume(("C09",), "a worklist of &mut Value: popping gives a place nothing else in hand refers to, holding anything; that every pushed place is popped once is Vec's")
    R.add("Value::apply_merge", apply_merge, ("C09", "C21"), opaque=True, loops=loops)
