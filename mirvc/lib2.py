"""Assumed contracts, continued: formatting, itoa / ryu, hashing, serde error constructors, iterators over slices."""
import re
import z3
from vc import *
import exe
from exe import *
from lib import *
from lib import LIB

FMTERR = lambda: Adt("std::fmt::Error", None, [])

# ---- fmt::Formatter: a sink with an output string; it either always works or always fails
def sink_parts(run, r):
    v = run.load(r.cell, r.path)
    return v, run.field(v, "out", 0, "str"), run.field(v, "fails", 0, "bool")

def is_sink(run, r):
    return isinstance(r, Ref) and short(r.ty).split("<")[0] in ("Formatter",)

def sink_write(run, r, s, ret):
    v, out, fails = sink_parts(run, r)
    if run.branch(fails):
        return err(ret, FMTERR())
    run.store(r.cell, r.path, run.set_field(v, "out", 0, z3.simplify(z3.Concat(out, s))))
    return ok(ret, UNIT)

FRES = "std::result::Result<(), std::fmt::Error>"

@lib("std::fmt::Formatter::write_str", "re:<Formatter as (std::fmt::)?Write>::write_(str|char)", "std::fmt::Formatter::pad")
def fmt_write_str(run, c):
    r = c.args[0]
    while isinstance(r, Ref) and r.ty.startswith("&"):
        r = deep1(run, r)
    if not is_sink(run, r):
        return NotImplemented
    s = utf8(run, c.args[1]) if c.method == "write_char" else strof(run, c.args[1])
    return sink_write(run, r, s, c.ret)

def int_text(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return S(str(e.as_long()))
    return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(S("-"), z3.IntToStr(-e)))

def ryu_text(run, f, kind="f64"):
    r = run.app("ryu:" + kind, [f], STR)
    return r

DISPLAY_OPAQUE = {"error::Error"}      # the text is some function of the error, and writing it fails only when the sink does
def display_text(run, fr, ty, x):
    """text of x by Display"""
    d = x
    t = ty.strip()
    while t.startswith("&"):
        t = re.sub(r"^&(mut )?", "", t).strip()
        if isinstance(d, Ref):
            d = deep1(run, d)
    if isinstance(d, Ref) and not (is_box(t)):
        d = deep1(run, d)
    if t in STRTY or "Cow<" in t and "str" in t:
        return strof(run, d)
    if t in INTTY and t != "char":
        return int_text(d)
    if t == "char":
        return utf8(run, d)
    if t in DISPLAY_OPAQUE:
        return run.app("display:" + short(t), [run.term(d)], STR)
    key = "<%s as Display>::fmt" % refshort(t)
    cand = None
    try:
        cand = run.ex.lookup(key, ["&" + t, "&mut std::fmt::Formatter<'_>"], "std::fmt::Display", t)
    except Unsupported:
        pass
    if cand is not None and len(run.frames) < 30:
        f = run.alloc(Sym(run.fresh("sink", U), "std::fmt::Formatter<'_>", {("out", 0): S(b""), ("fails", 0): z3.BoolVal(False)}))
        fref = Ref(f, (), "mut", "std::fmt::Formatter<'_>")
        xr = run.mkref(d, "shared", t)
        res = call_path(run, fr, "<%s as std::fmt::Display>::fmt" % t, [xr, fref], ["&" + t, "&mut std::fmt::Formatter<'_>"], FRES)
        v = run.load(f, ())
        out = run.field(v, "out", 0, "str")
        # a Display impl that fails without its sink failing would panic in to_string
        if run.case(res) == "Err":
            raise Panic("a Display implementation returned an error unexpectedly")
        return out
    return run.app("display:" + short(t), [run.term(d)], STR)

@lib("re:core::fmt::rt::Argument::new_\\w+", "re:std::fmt::Argument::new_\\w+")
def fmt_arg(run, c):
    x = c.args[0]
    t = re.sub(r"^&", "", c.tys[0]).strip()
    if c.method == "new_display":
        return Adt("fmtarg", None, [display_text(run, c.frame, t, deep1(run, x)), fmt_id(run, x)])
    d = deep(run, x)
    tt = re.sub(r"^(&mut |&)+", "", t)
    if c.method == "new_debug" and (sort_of(tt) == STR):
        return Adt("fmtarg", None, [run.app("debug:str", [strof(run, d)], STR)])
    return Adt("fmtarg", None, [run.app("%s:%s" % (c.method[4:], short(tt)), [run.term(d)], STR)])

def fmt_id(run, x):
    """which value is formatted: what pieces its text is written in depends on it"""
    try:
        return run.term(deep(run, x))
    except Unsupported:
        return None

WRITERS = {}      # type -> (invariant, text written so far) of the local fmt::Write types
def written_state(run, old, text, ident):
    """the state of a local writer after a value's Display has written to it: unknown, but determined by the state
    and the value.  Its invariant and its text follow by induction over the pieces from write_str's contract."""
    inv, txt = WRITERS[strip_ty_generics(old.ty)]
    new = run.mat(run.app("written:" + short(old.ty), [run.term(old), ident], U), old.ty)
    run.assume(inv(run, new))
    run.assume(txt(run, new) == z3.Concat(txt(run, old), text))
    return new

@lib("std::fmt::write", "core::fmt::write")
def fmt_write(run, c):
    r = c.args[0]
    if not isinstance(r, Ref):
        return NotImplemented
    while isinstance(run.load(r.cell, r.path), Ref):
        r = run.load(r.cell, r.path)
    old, a = run.load(r.cell, r.path), deep(run, c.args[1])
    if not isinstance(old, (Adt, Sym)) or strip_ty_generics(old.ty or "") not in WRITERS or not (isinstance(a, Adt) and len(a.fields) > 1 and a.fields[1] is not None):
        return NotImplemented
    run.store(r.cell, r.path, written_state(run, old, a.fields[0], a.fields[1]))
    return ok(c.ret, UNIT)

def arr(run, v):
    v = deep(run, v)
    if not isinstance(v, Adt):
        raise Unsupported("format pieces %r" % (v,))
    return v.fields

@lib("re:core::fmt::rt::<impl std::fmt::Arguments>::(new_v1|new_const|new_v1_formatted)", "re:std::fmt::Arguments::(new_v1|new_const|new_v1_formatted)")
def fmt_args(run, c):
    if c.method == "new_v1_formatted":
        run.imprecise.append("format options")
        return Adt("fmt::Arguments", None, [run.app("formatted", [run.term(a) for a in c.args[:2]], STR)])
    pieces = [strof(run, p) for p in arr(run, c.args[0])]
    avals = arr(run, c.args[1]) if len(c.args) > 1 else []
    args = [a.fields[0] for a in avals]
    ident = avals[0].fields[1] if len(avals) == 1 and len(avals[0].fields) > 1 and all(z3.is_string_value(p) and p.as_string() == "" for p in pieces) else None
    out = []
    for i in range(max(len(pieces), len(args))):
        if i < len(pieces): out.append(pieces[i])
        if i < len(args): out.append(args[i])
    s = S(b"") if not out else out[0] if len(out) == 1 else z3.Concat(*out)
    return Adt("fmt::Arguments", None, [z3.simplify(s)] + ([ident] if ident is not None else []))

def args_text(run, v):
    v = deep(run, v)
    if isinstance(v, Adt) and v.ty == "fmt::Arguments":
        return v.fields[0]
    return run.app("args_text", [run.term(v)], STR)

@lib("std::fmt::Formatter::write_fmt", "re:<Formatter as (std::fmt::)?Write>::write_fmt")
def fmt_write_fmt(run, c):
    r = c.args[0]
    while isinstance(r, Ref) and r.ty.startswith("&"):
        r = deep1(run, r)
    if not is_sink(run, r):
        return NotImplemented
    return sink_write(run, r, args_text(run, c.args[1]), c.ret)

@lib("std::fmt::format", "alloc::fmt::format")
def fmt_format(run, c):
    return args_text(run, c.args[0])

@lib("re:<.* as (Display|Debug|LowerHex|UpperHex)>::fmt", "re:.*<impl (std::fmt::)?(Display|Debug) for .*>::fmt")
def display_fmt(run, c):
    m = re.search(r"<impl (?:std::fmt::)?(\w+) for (.*)>::fmt", c.path) or re.match(r"<(.*) as (?:std::fmt::)?(\w+)(?:<.*>)?>::fmt", c.path)
    st = c.selfty or (m.group(2) if "<impl" in c.path else m.group(1))
    tr = short(c.trait) if c.trait else m.group(1)
    if run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None:
        return NotImplemented
    r = c.args[1]
    if not is_sink(run, r):
        return NotImplemented
    t = re.sub(r"^(&mut |&)+", "", st).strip()
    if tr == "Display":
        return sink_write(run, r, display_text(run, c.frame, st, deep1(run, c.args[0]) if isinstance(c.args[0], Ref) else c.args[0]), c.ret)
    d = deep(run, c.args[0])
    if tr == "Debug" and sort_of(t) == STR:
        return sink_write(run, r, run.app("debug:str", [strof(run, d)], STR), c.ret)
    if st.startswith("&"):
        key = "<%s as %s>::fmt" % (refshort(t), tr)
        cand = run.ex.lookup(key, ["&" + t, c.tys[1]], "std::fmt::" + tr, t)
        if cand is not None:
            x = c.args[0]
            for _ in range(st.count("&")):
                x = deep1(run, x)
            return call_path(run, c.frame, "<%s as std::fmt::%s>::fmt" % (t, tr), [x, r], ["&" + t, c.tys[1]], c.ret)
    return sink_write(run, r, run.app("%s:%s" % (tr.lower(), short(t)), [run.term(d)], STR), c.ret)

@lib("re:<.* as ToString>::to_string")
def to_string(run, c):
    t = c.selfty
    x = c.args[0]
    tt = re.sub(r"^(&mut |&)+", "", t)
    if tt in STRTY:
        return strof(run, x)
    return display_text(run, c.frame, t, deep1(run, x))

# ---- itoa, ryu
@lib("itoa::Buffer::new", "ryu::Buffer::new")
def buf_new(run, c):
    return Adt(c.ret, None, [])

@lib("itoa::Buffer::format", "ryu::Buffer::format", "ryu::Buffer::format_finite")
def buf_format(run, c):
    x = c.args[1]
    if z3.is_fp(x):
        return ryu_text(run, x, "f64" if x.sort() == F64 else "f32")
    return int_text(x)

# ---- hashing: what is fed to the hasher
@lib("re:<.* as Hash>::hash", "re:core::hash::impls::<impl (std::hash::)?Hash for .*>::hash")
def hash_prim(run, c):
    st = c.selfty or re.search(r"for (.*?)>::hash", c.path).group(1)
    if c.selfty and run.ex.lookup(c.key, c.tys, c.trait, c.selfty) is not None and not c.selfty.startswith("&"):
        return NotImplemented
    t = re.sub(r"^(&mut |&)+", "", st).strip()
    x = c.args[0]
    if st.startswith("&"):
        for _ in range(len(re.match(r"^(&mut |&)+", st).group(0).split("&")) - 1):
            x = deep1(run, x)
        if not (is_z3(x) and x.sort() == STR):
            return call_path(run, c.frame, "<%s as std::hash::Hash>::hash::<H>" % t, [x, c.args[1]], ["&" + t, c.tys[1]], "()")
    if t in INTTY or t == "bool":
        return uninterp(run, "hash:" + t, [deep(run, x), c.args[1]], "()")
    if sort_of(t) == STR:
        return uninterp(run, "hash:str", [strof(run, x), c.args[1]], "()")
    return NotImplemented

@lib("std::mem::discriminant", "core::mem::discriminant")
def mem_discriminant(run, c):
    v = deep(run, c.args[0])
    return Adt(c.ret, None, [run.discr(v) if isinstance(v, (Adt, Sym)) else v])

@lib("re:<(std::mem::)?Discriminant as (PartialEq)>::(eq|ne)")
def discr_eq(run, c):
    a, b = deep(run, c.args[0]), deep(run, c.args[1])
    e = run.field(a, None, 0, "isize") == run.field(b, None, 0, "isize")
    return e if c.method == "eq" else z3.Not(e)

@lib("re:<(std::mem::)?Discriminant as Hash>::hash")
def discr_hash(run, c):
    return uninterp(run, "hash:discriminant", [run.field(deep(run, c.args[0]), None, 0, "isize"), c.args[1]], "()")

@lib("re:core::num::<impl [iu](\\d+|size)>::(min_value|max_value)")
def int_limits(run, c):
    lo, hi = INTTY[re.search(r"<impl (\w+)>", c.key).group(1)]
    return z3.IntVal(lo if c.method == "min_value" else hi)
