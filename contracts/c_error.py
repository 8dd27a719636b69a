"""error.rs, path.rs, libyaml/error.rs: positions and texts of errors (C16)"""
from contracts.dsl import *

PATH, POS, MARK = "path::Path", "error::Pos", "libyaml::error::Mark"
STRUCTS[POS] = ("src/error.rs", [("mark", MARK, "mut"), ("path", "std::string::String", "mut")])

def path_text(c, p):
    return c.run.app("text of a path", [c.run.term(deep(c.run, p))], STR)

def path_fmt_call(c, p, f):
    return write(c, f, path_text(c, p))

def path_fmt(c, p, f):
    """. for the root, parent[i], parent.key, an alias as its parent, parent.? for the rest; no dot under the root"""
    p = deep(c.run, p)
    k = c.case(p)
    if k == "Root": return write(c, f, ".")
    parent = c.field(p, k, 0, "&" + PATH)
    t = path_text(c, parent)
    if k == "Alias": return write(c, f, t)
    if k == "Seq":
        i = c.field(p, k, 1, "usize")
        return write(c, f, z3.Concat(t, S("["), int_text(i), S("]")))
    pre = S("") if c.case(deep(c.run, parent)) == "Root" else z3.Concat(t, S("."))
    return write(c, f, z3.Concat(pre, S("?") if k == "Unknown" else strof(c.run, c.field(p, k, 1, "&str"))))

def fix_mark(c, e, mark, path):
    """a message without a position gets this one; every other error stays as it is"""
    b = c.field(e, None, 0, "std::boxed::Box<%s>" % IMPL)
    i = deep(c.run, b)
    if c.case(i) != "Message": return e
    OP = "std::option::Option<%s>" % POS
    if c.case(c.field(i, "Message", 1, OP)) != "None": return e
    return new_error(c, "Message", c.field(i, "Message", 0, "std::string::String"), some(OP, mkstruct(c, POS, mark=mark, path=path_text(c, path))))

ARC = "std::sync::Arc<%s>" % IMPL
OM = "std::option::Option<%s>" % MARK
LOC = "error::Location"
SYSMARK = "unsafe_libyaml::yaml_mark_t"
LERR = "libyaml::error::Error"
STRUCTS[LOC] = ("src/error.rs", [("index", "usize", "mut"), ("line", "usize", "mut"), ("column", "usize", "mut")])
STRUCTS[LERR] = ("src/libyaml/error.rs", [("kind", "unsafe_libyaml::yaml_error_type_t", "mut"), ("problem", "libyaml::cstr::CStr", "mut"), ("problem_offset", "u64", "mut"),
                                          ("problem_mark", MARK, "mut"), ("context", "std::option::Option<libyaml::cstr::CStr>", "mut"), ("context_mark", MARK, "mut")])

def mark_part(c, mark, name):
    """index, line, column: the three numbers libyaml keeps"""
    m = deep(c.run, mark)
    return c.field(c.field(m, None, 0, SYSMARK), None, ["index", "line", "column"].index(name), "u64")

def small_marks(run, *ms):
    """positions lie within an input, so they are far below 2^64"""
    for m in ms:
        for n in ("line", "column"): run.axiom(mark_part(run2(run), m, n) < 2**64 - 1)

class run2:
    def __init__(self, run): self.run = run; self.field = run.field

def mark_getter(name):
    def f(c, m): return mark_part(c, m, name)
    f.__doc__ = "libyaml's " + name
    return f

def loc_of(c, mark):
    """1-based line and column, the index as it is"""
    small_marks(c.run, mark)
    return mkstruct(c, LOC, index=mark_part(c, mark, "index"), line=mark_part(c, mark, "line") + 1, column=mark_part(c, mark, "column") + 1)

def impl_of(c, e):
    """the ErrorImpl inside an Error"""
    b = c.field(deep(c.run, e), None, 0, "std::boxed::Box<%s>" % IMPL)
    return b

def impl_mark(c, e):
    """the position an error has: its own, libyaml's, that of the shared error, or none"""
    i = deep(c.run, e)
    k = c.case(i)
    if k == "Message":
        p = c.field(i, k, 1, "std::option::Option<%s>" % POS)
        if c.case(p) == "None": return none(c.ret)
        pos = c.field(p, "Some", 0, POS)
        return some(c.ret, c.field(pos, None, c.run.fidx(POS, "mark"), MARK))
    if k in ("RecursionLimitExceeded", "UnknownAnchor"): return some(c.ret, c.field(i, k, 0, MARK))
    if k == "Libyaml":
        le = c.field(i, k, 0, LERR)
        return some(c.ret, c.field(le, None, c.run.fidx(LERR, "problem_mark"), MARK))
    if k == "Shared": return callf(c, "ErrorImpl::mark", [c.field(i, k, 0, ARC)], c.ret)
    return none(c.ret)

def impl_location(c, e):
    """where the error's mark is"""
    m = callf(c, "ErrorImpl::mark", [e], OM)
    if c.case(m) == "None": return none(c.ret)
    return some(c.ret, loc_of(c, c.field(m, "Some", 0, MARK)))

def error_location(c, e):
    """where the error's mark is"""
    return impl_location(c, impl_of(c, e))

def error_shared(c, e):
    """the shared error itself, or this one made shareable"""
    b = impl_of(c, e)
    i = deep(c.run, b)
    if c.case(i) == "Shared": return c.field(i, "Shared", 0, ARC)
    return Ref(b.cell, b.path, "shared", b.ty)

def new_err(c, impl): return Adt(ERR, None, [Ref(c.alloc(impl, "box"), (), "box", IMPL)])

def wrap_shared(c, a):
    """an Error holding the shared one"""
    return new_error(c, "Shared", a)

def from_libyaml(c, e):
    """libyaml's error, unchanged"""
    return new_error(c, "Libyaml", e)

def from_emitter(c, e):
    """an I/O error as one, libyaml's as libyaml's"""
    k = c.case(e)
    return new_error(c, k, c.field(e, k, 0, {"Io": "std::io::Error", "Libyaml": LERR}[k]))

def custom(c, msg):
    """the message, with no position yet"""
    return new_error(c, "Message", display_text(c.run, None, c.tys[0], msg), none("std::option::Option<%s>" % POS))

MESSAGES = dict(EndOfStream="EOF while parsing a value", MoreThanOneDocument="deserializing from YAML containing more than one document is not supported",
    RecursionLimitExceeded="recursion limit exceeded", RepetitionLimitExceeded="repetition limit exceeded", BytesUnsupported="serialization and deserialization of bytes in YAML is not implemented",
    UnknownAnchor="unknown anchor", SerializeNestedEnum="serializing nested enums in YAML is not supported yet", ScalarInMerge="expected a mapping or list of mappings for merging, but found scalar",
    TaggedInMerge="unexpected tagged value in merge", ScalarInMergeElement="expected a mapping for merging, but found scalar", SequenceInMergeElement="expected a mapping for merging, but found sequence",
    EmptyTag="empty YAML tag is not allowed", FailedToParseNumber="failed to parse YAML number")

def write_all(c, f, *parts):
    """one text after another, stopping at the first failure"""
    for p in parts:
        r = write(c, f, p)
        if c.case(r) == "Err": raise Return(r)
    return ok(FRES, UNIT)

def message_no_mark(c, e, f):
    """the path (unless the error is at the root) and the message"""
    i = deep(c.run, e)
    k = c.case(i)
    if k in ("Libyaml", "Shared"): c.panic("not a plain message")
    if k == "Message":
        m = strof(c.run, c.field(i, k, 0, "std::string::String"))
        p = c.field(i, k, 1, "std::option::Option<%s>" % POS)
        if c.case(p) == "Some":
            path = strof(c.run, c.field(c.field(p, "Some", 0, POS), None, c.run.fidx(POS, "path"), "std::string::String"))
            if c.branch(path != S(".")): write_all(c, f, z3.Concat(path, S(": ")))
        return write(c, f, m)
    if k in ("Io", "FromUtf8"):
        ty = {"Io": "std::io::Error", "FromUtf8": "std::string::FromUtf8Error"}[k]
        return write(c, f, display_text(c.run, None, ty, c.field(i, k, 0, ty)))
    return write(c, f, MESSAGES[k])

def mark_text(c, m):
    small_marks(c.run, m)
    l, col = mark_part(c, m, "line"), mark_part(c, m, "column")
    if c.branch(z3.Or(l != 0, col != 0)):
        return z3.Concat(S("line "), int_text(l + 1), S(" column "), int_text(col + 1))
    return z3.Concat(S("position "), int_text(mark_part(c, m, "index")))

def mark_fmt(c, m, f):
    """line and column from 1, or the index at the very start"""
    return write(c, f, mark_text(c, m))

def lossy_text(run, b):
    """the valid text, then U+FFFD for a piece that is not, and so on with the rest (one step unfolded)"""
    t = lambda x: run.app("lossy text", [x], STR)
    n, k = lib.utf8_parts(run, b)
    rest = z3.SubString(b, n + k, z3.Length(b) - (n + k))
    v = run.app("valid_utf8", [b], BOOL)
    run.axiom(z3.Implies(v, t(b) == b))
    run.axiom(z3.Implies(z3.Not(v), t(b) == z3.If(k > 0, z3.Concat(z3.SubString(b, z3.IntVal(0), n), S("\ufffd"), t(rest)), z3.Concat(z3.SubString(b, z3.IntVal(0), n), S("\ufffd")))))
    return t(b)

def display_lossy(c, b, f):
    """writes the lossy text"""
    return write(c, f, lossy_text(c.run, strof(c.run, b)))

def lossy_args(run, args):
    v, out, fails = sink_parts(run, args[1])
    run.lossy0 = (args[1], out, fails, strof(run, args[0]))

def lossy_loop():
    B = lambda view: strof(view.run, view.run.load(view.var("&[u8]")))
    def inv(run, view):
        f, out0, fails0, b0 = run.lossy0
        v, out, fails = sink_parts(run, f)
        return [("what is written and what is left make up the text", z3.Concat(out, lossy_text(run, B(view))) == z3.Concat(out0, lossy_text(run, b0))),
                ("the sink", fails == fails0), ("nothing is written to a failing sink", z3.Implies(fails0, out == out0))]
    def havoc(run, view):
        f = run.lossy0[0]
        v = run.load(f.cell, f.path)
        run.store(f.cell, f.path, run.set_field(run.set_field(v, "out", 0, run.fresh("out", STR)), "fails", 0, run.fresh("fails", BOOL)))
    return {0: exe.LoopSpec(inv, havoc=havoc, decreases=lambda run, view: z3.Length(B(view)))}

def cstr_text(c, p):
    from contracts import c_libyaml as cy
    return lossy_text(c.run, cy.cstr_bytes(c, deep(c.run, p)))

def cstr_fmt(c, p, f):
    """the bytes of the C string, lossily"""
    return write(c, f, cstr_text(c, p))

def lerr_fmt(c, e, f):
    """the problem, where it is, the context, and where that began if elsewhere"""
    x = lambda n: c.field(deep(c.run, e), None, c.run.fidx(LERR, n), sty(LERR, n))
    pm, cm = x("problem_mark"), x("context_mark")
    small_marks(c.run, pm, cm)
    away = lambda m: z3.Or(mark_part(c, m, "line") != 0, mark_part(c, m, "column") != 0)
    write_all(c, f, cstr_text(c, x("problem")))
    if c.branch(away(pm)): write_all(c, f, z3.Concat(S(" at "), mark_text(c, pm)))
    elif c.branch(x("problem_offset") != 0): write_all(c, f, z3.Concat(S(" at position "), int_text(x("problem_offset"))))
    ctx = x("context")
    if c.case(ctx) == "Some":
        write_all(c, f, z3.Concat(S(", "), cstr_text(c, c.field(ctx, "Some", 0, "libyaml::cstr::CStr"))))
        if c.branch(z3.And(away(cm), z3.Or(mark_part(c, cm, "line") != mark_part(c, pm, "line"), mark_part(c, cm, "column") != mark_part(c, pm, "column")))):
            write_all(c, f, z3.Concat(S(" at "), mark_text(c, cm)))
    return ok(FRES, UNIT)

def lerr_text(c, e):
    return c.run.app("text of a libyaml error", [c.run.term(deep(c.run, e))], STR)

def lerr_pre(run, e, f):
    d = deep(run, e)
    for n in ("problem_mark", "context_mark"): small_marks(run, run.field(d, None, run.fidx(LERR, n), MARK))
    return []

def display_error(c, e, f):
    """the message, then where (if past the start)"""
    i = deep(c.run, e)
    k = c.case(i)
    if k == "Libyaml": return write(c, f, lerr_text(c, c.field(i, k, 0, LERR)))
    if k == "Shared": return callf(c, "ErrorImpl::display", [c.field(i, k, 0, ARC), f], FRES)
    r = callf(c, "ErrorImpl::message_no_mark", [e, f], FRES)
    if c.case(r) == "Err": return err(FRES, c.field(r, "Err", 0, "std::fmt::Error"))
    m = callf(c, "ErrorImpl::mark", [e], OM)
    if c.case(m) == "Some":
        mk = c.field(m, "Some", 0, MARK)
        if c.branch(z3.Or(mark_part(c, mk, "line") != 0, mark_part(c, mk, "column") != 0)):
            write_all(c, f, z3.Concat(S(" at "), mark_text(c, mk)))
    return ok(FRES, UNIT)

def register(R):
    P = ("C16",)
    R.assume(("C16", "C21"), "libyaml's marks are positions in the input (index, line, column below 2^64 - 1)")
    for t in ("de", "ser"): R.add("<Error as Error>::custom of %s::Error" % t, custom, P)
    for n in ("index", "line", "column"): R.add("Mark::" + n, mark_getter(n), P)
    R.add("Location::from_mark", loc_of, P + ("C21",), pre=lambda run, m: small_marks(run, m) or [])
    R.add("ErrorImpl::mark", impl_mark, P, opaque=True)
    R.add("ErrorImpl::location", impl_location, P)
    R.add("Error::location", error_location, P)
    R.add("Error::shared", error_shared, P + ("C13",))
    R.add("error::new", new_err, P)
    R.add("error::shared", wrap_shared, P + ("C13",))
    R.add("<Error as From>::from (libyaml::error::Error)", from_libyaml, P)
    R.add("<Error as From>::from (libyaml::emitter::Error)", from_emitter, P + ("C20",))
    R.add("ErrorImpl::message_no_mark", message_no_mark, P + ("C21",), opaque=True,
          pre=lambda run, e, f: [("a plain message", z3.Not(z3.Or(run.is_variant(deep(run, e), "Libyaml"), run.is_variant(deep(run, e), "Shared"))))])
    R.add("ErrorImpl::display", display_error, P + ("C21",), opaque=True)
    R.add("libyaml::cstr::display_lossy", display_lossy, P + ("C21",), args=lossy_args, loops=lossy_loop())
    R.add("<CStr as Display>::fmt", cstr_fmt, P + ("C21",))
    R.add("<Error as Display>::fmt in src/libyaml/error.rs", lerr_fmt, P + ("C21",), opaque=lambda c, e, f: write(c, f, lerr_text(c, e)), pre=lerr_pre)
    R.add("<Mark as Display>::fmt", mark_fmt, P + ("C21",), pre=lambda run, m, f: small_marks(run, m) or [])
    R.add("<Path as Display>::fmt", path_fmt, ("C16",), opaque=path_fmt_call)
    R.add("error::fix_mark", fix_mark, ("C16",), opaque=True)
