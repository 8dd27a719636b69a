"""Assumed contracts, continued: worklists of places (Vec<&mut T>).

A pushed place is its identity and what it holds when pushed. Popping gives a place that nothing else in hand refers to (a &mut is
unique), holding anything (places in the list may have been written in earlier passes)."""
import z3
import vc, exe
from vc import *
from exe import *
from lib import lib, LIB, some, none, deep, vec_push_val, vec_push, vec_pop

def is_work(ty):
    a = ty_args(pointee(ty) if is_ref_ty(ty) else ty)
    return len(a) == 1 and a[0].startswith("&mut ")

def place(run, r):
    """the identity of a place"""
    return z3.Const("place:%s%s" % (r.cell, [(p[0], str(p[1])) for p in r.path]), U)

def popped(ty):
    return ("d", "a place from a worklist of " + ty)

def push_place(run, r, x):
    old = run.term(run.load(r.cell, r.path))
    run.store(r.cell, r.path, Sym(work(run, "push", old, place(run, x), run.term(run.load(x.cell, x.path))), run.load(r.cell, r.path).ty))

def work(run, how, old, *ts):
    n = run.app("len", [old], INT)
    run.axiom(n >= 0)
    t = run.app(how + " places", [old] + list(ts), U)
    m = run.app("len", [t], INT)
    run.axiom(m == n + 1 if how == "push" else m >= n)
    return t

def pop_place(run, r, ety):
    """the next place, or None"""
    old = run.term(run.load(r.cell, r.path))
    n = run.app("len", [old], INT)
    run.axiom(n >= 0)
    if run.branch(n == 0):
        return None
    t = pointee(ety)
    cell = popped(t)
    if cell in run.mem:
        raise Unsupported("two places of one worklist at once")
    run.mem[cell] = run.matinit[cell] = run.mat(run.app("in the top place", [old], sort_of(t)), t)
    nt = run.app("pop places", [old], U)
    run.axiom(run.app("len", [nt], INT) == n - 1)
    run.store(r.cell, r.path, Sym(nt, run.load(r.cell, r.path).ty))
    return Ref(cell, (), "mut", t)

def extend_places(run, r, container, pos):
    """push every element (every value of a map) of a container from a position on, in order"""
    old = run.load(r.cell, r.path)
    c = run.load(container.cell, container.path)
    run.store(r.cell, r.path, Sym(work(run, "extend", run.term(old), place(run, container), run.term(c), pos), old.ty))


@lib("std::vec::Vec::push")
def push(run, c):
    if is_work(c.tys[0]) and isinstance(c.args[1], Ref):
        push_place(run, c.args[0], c.args[1])
        return UNIT
    return vec_push(run, c)

@lib("std::vec::Vec::pop")
def pop(run, c):
    if is_work(c.tys[0]):
        x = pop_place(run, c.args[0], ty_args(c.ret)[0])
        return none(c.ret) if x is None else some(c.ret, x)
    return vec_pop(run, c)

@lib("re:<Vec as Extend>::extend")
def extend(run, c):
    if not is_work(c.tys[0]):
        return NotImplemented
    it, pos = c.args[1], z3.IntVal(0)
    while isinstance(it, Adt) and len(it.fields) == 1:
        it = it.fields[0]
    if isinstance(it, Adt) and len(it.fields) == 2:
        it, pos = it.fields
    if not (isinstance(it, Ref) and it.kind == "mut"):
        return NotImplemented
    extend_places(run, c.args[0], it, pos)
    return UNIT

# ------------------------------------------------------------------ iterators over arrays that are written out
from lib3 import SEQIT, it_parts
from lib import STRTY as _S

def written_out(run, it):
    """(elements left) of an iterator over an array whose elements are given one by one, else None"""
    it = deep(run, it)
    if not (isinstance(it, Adt) and it.variant is None and len(it.fields) == 2):
        return None
    s, p = it.fields
    s = deep(run, s)
    p = z3.simplify(p) if is_z3(p) else None
    if not (isinstance(s, Adt) and s.variant is None and p is not None and z3.is_int_value(p)):
        return None
    return s.fields[p.as_long():]

def as_item(run, x, t):
    """an element as the iterator's item"""
    while t.startswith("&"):
        t = re.sub(r"^&(mut )?('\w+ )?", "", t)
        if t == "str": return x
        x = run.mkref(x, "shared", t)
    return x

@lib("re:<%s as Iterator>::(any|all|find|position|find_map)" % SEQIT)
def over_written_out(run, c):
    xs = written_out(run, c.args[0])
    if xs is None or len(xs) > 64:
        return NotImplemented
    ity = pointee(c.tys[0])
    et = ty_args(ity)[0] if "array" in ity or "vec" in ity else "&" + ty_args(ity)[-1]
    f, m = c.args[1], c.method
    for i, x in enumerate(xs):
        x = as_item(run, x, et)
        if m == "find":
            if run.branch(call_value(run, c.frame, f, [run.mkref(x, "shared", et)], ["&" + et], "bool")): return some(c.ret, x)
        elif m == "find_map":
            r = call_value(run, c.frame, f, [x], [et], c.ret)
            if run.branch(run.is_variant(r, "Some")): return r
        elif run.branch(call_value(run, c.frame, f, [x], [et], "bool")) != (m == "all"):
            return z3.BoolVal(m == "any") if m != "position" else some(c.ret, z3.IntVal(i))
    return z3.BoolVal(m == "all") if m in ("any", "all") else none(c.ret)

@lib("re:core::slice::<impl \\[.*\\]>::contains")
def array_contains(run, c):
    s = deep(run, c.args[0])
    if not (isinstance(s, Adt) and s.variant is None):
        return NotImplemented
    x = deep(run, c.args[1])
    es = [deep(run, e) for e in s.fields]
    if not all(is_z3(e) and is_z3(x) and e.sort() == x.sort() for e in es):
        return NotImplemented
    return z3.Or([e == x for e in es])

@lib("re:<%s as IntoIterator>::into_iter" % SEQIT)
def iter_into_iter(run, c):
    return c.args[0] if isinstance(c.args[0], Adt) else NotImplemented
