"""Vocabulary of the specifications."""
import re
import z3
import vc, exe, lib, lib2
from vc import *
from exe import *
from lib import some, none, ok, err, strof, deep, deep1, utf8
from lib2 import sink_write, sink_parts, int_text, ryu_text, display_text, FRES
from mir import short, refshort, INTTY, strip_ty_generics

I64 = (-2**63, 2**63 - 1)
U64 = (0, 2**64 - 1)

def T(ty):           # generic args of a type
    return ty_args(ty)

def load(c, r):
    """what a reference (of references) points to"""
    return deep(c.run, r)

def num(c, n):
    """(kind, payload) of a Number (by value or reference); forks on the kind"""
    n = deep(c.run, n)
    x = c.field(n, None, 0, "number::N")
    k = c.case(x)
    return k, c.field(x, k, 0, {"PosInt": "u64", "NegInt": "i64", "Float": "f64"}[k])

def mknum(k, x):
    return Adt("number::Number", None, [Adt("number::N", k, [x])])

def num_inv(c, n):
    """type invariant of Number: a NegInt is negative"""
    n = deep(c, n) if not hasattr(c, "run") else deep(c.run, n)
    run = c.run if hasattr(c, "run") else c
    x = run.field(n, None, 0, "number::N")
    if isinstance(x, Adt) and x.variant != "NegInt":
        return z3.BoolVal(True)
    return z3.Implies(run.is_variant(x, "NegInt"), run.field(x, "NegInt", 0, "i64") < 0) if not isinstance(x, Adt) else x.fields[0] < 0

def int_number(c, v):
    """the canonical Number of an integer"""
    if c.branch(v < 0):
        return mknum("NegInt", v)
    return mknum("PosInt", v)

NAN = z3.fpNaN(F64)

from engine import Return
RESULT = "std::result::Result<%s, error::Error>"
ERR = "error::Error"
IMPL = "error::ErrorImpl"

def q(c, r, ty=None, ret=None):
    """the ? operator: the Ok value, or return the error at once"""
    if c.case(r) == "Err":
        raise Return(err(ret or c.ret, c.field(r, "Err", 0, ERR)))
    return c.field(r, "Ok", 0, ty or ty_args(r.ty)[0])

def callf(c, key, vals, ret):
    """the function under contract of that name, as an unknown function"""
    return uninterp(c.run, key, vals, ret)

def callv(c, f, vals, tys, ret):
    """call a closure (or a specification function standing for one)"""
    if callable(f):
        return f(*vals)
    return call_value(c.run, c.run.frames[-1] if c.run.frames else None, f, vals, tys, ret)

def new_error(c, variant, *fields):
    return Adt(ERR, None, [Ref(c.alloc(Adt(IMPL, variant, list(fields)), "box"), (), "box", IMPL)])

def sidx(c, ty, name):
    return c.run.fidx(ty, name)

def sty(ty, name):
    return [t for n, t, m in STRUCTS[ty][1] if n == name][0]

def at(c, r, *path):
    """a field of what r refers to: at(c, s, "de", "pos")"""
    for p in path:
        v = c.load(r.cell, r.path)
        r = Ref(r.cell, r.path + ((None, c.run.fidx(v.ty, p), sty(strip_ty_generics(v.ty), p)),), "mut", sty(strip_ty_generics(v.ty), p))
        v = c.load(r.cell, r.path)
        if isinstance(v, Ref) and p != path[-1]:
            r = v
    return r

def get(c, r, *path):
    x = at(c, r, *path)
    return c.load(x.cell, x.path)

def put(c, r, name, v):
    x = at(c, r, name)
    c.store(x.cell, x.path, v)

def mkstruct(c, ty, **f):
    out = [None] * len(f)
    for n, v in f.items():
        out[c.run.fidx(ty, n)] = v
    return Adt(ty, None, out)

def visit(c, name, *vals, ret=None):
    """Visitor::visit_<name>(..): of a client's visitor some function, of one of the crate's own what its code says"""
    v = vals[0]
    if isinstance(v, Adt) and c.run.ex.prog.by_key.get("<%s as Visitor>::expecting" % short(v.ty)):
        return visit_own(c, name, v, list(vals[1:]), ret or c.ret)
    return uninterp(c.run, "Visitor::visit_" + name, list(vals), ret or c.ret)

VISIT_ARG = dict(bool="bool", str="&str", borrowed_str="&str", string="std::string::String", f32="f32", f64="f64", **{t: t for t in INTTY})
VISIT_DEFAULT = dict(borrowed_str="str", string="str", f32="f64", **{p + n: p + "64" for p in "iu" for n in ("8", "16", "32")})
def visit_own(c, name, v, args, ret):
    if c.run.ex.prog.by_key.get("<%s as Visitor>::visit_%s" % (short(v.ty), name)):
        return call(c, "<%s as serde::de::Visitor>::visit_%s::<error::Error>" % (v.ty, name), [v] + args, [v.ty] + [VISIT_ARG.get(name, "?")] * len(args), ret)
    if name in VISIT_DEFAULT:          # serde's default methods
        return visit_own(c, VISIT_DEFAULT[name], v, args, ret)
    return err(ret, uninterp(c.run, "default Visitor::visit_" + name, [v] + args, ty_args(ret)[1]))

def serialize(c, name, *vals, ret=None):
    return uninterp(c.run, "Serializer::serialize_" + name, list(vals), ret or c.ret)

def write(c, f, s):
    """write text to a formatter"""
    return sink_write(c.run, f, s if is_z3(s) else S(s), FRES)

def opt(c, cond, v):
    """Some(v) if cond else None (at the function's return type)"""
    if c.branch(cond):
        return some(c.ret, v() if callable(v) else v)
    return none(c.ret)

def call(c, path, vals, tys, ret):
    return call_path(c.run, None, path, vals, tys, ret)

# ------------------------------------------------------------------ regular expressions
def lit(s): return z3.Re(S(s))
def alt(*rs):
    rs = [lit(r) if isinstance(r, (str, bytes)) else r for r in rs]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
def cat(*rs):
    rs = [lit(r) if isinstance(r, (str, bytes)) else r for r in rs]
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)
def star(r): return z3.Star(r)
def plus(r): return z3.Plus(r)
def optr(r): return z3.Option(lit(r) if isinstance(r, str) else r)
def rng(a, b): return z3.Range(S(a), S(b))
DIGIT = rng("0", "9")
def inre(s, r): return z3.InRe(s, r)
