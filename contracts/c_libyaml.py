"""libyaml/{emitter,parser,error,cstr}.rs: what is handed to libyaml and what is made of its answers (C01, C02, C10, C13, C15, C16, C20, C21)"""
from contracts.dsl import *
from contracts import c_ser as cs, c_events as ce, c_loader as cl
from engine import SpecCtx
from contracts.c_error import LERR, MARK, SYSMARK
import lib4
from lib4 import libyaml, ok_of, nullptr, ptr_of, cstrlen, bytes_at, is_null, uninit, PROMISES, SUCCESS

Y = "unsafe_libyaml::"
EM, PIN = "libyaml::emitter::Emitter", "libyaml::emitter::EmitterPinned"
YEM, YPA, YEV = Y + "yaml_emitter_t", Y + "yaml_parser_t", Y + "yaml_event_t"
EEV, EERR = "libyaml::emitter::Event", "libyaml::emitter::Error"
BOXW = "std::boxed::Box<dyn std::io::Write>"
OIO = "std::option::Option<std::io::Error>"
IOE = "std::io::Error"
CSTR, OCSTR = "libyaml::cstr::CStr", "std::option::Option<libyaml::cstr::CStr>"
OSTR = "std::option::Option<std::string::String>"
STRUCTS[PIN] = ("src/libyaml/emitter.rs", [("sys", YEM, "mut"), ("write", BOXW, "mut"), ("write_error", OIO, "mut")])
PARSER, PPIN = "libyaml::parser::Parser", "libyaml::parser::ParserPinned"
COW = "std::borrow::Cow<[u8]>"
STRUCTS[PPIN] = ("src/libyaml/parser.rs", [("sys", YPA, "mut"), ("input", COW, "mut")])

def enumv(ty, name):
    return Adt(Y + ty, name, [])

def pin_of(c, e, ty=PIN):
    """what lies behind the Emitter or Parser"""
    p = c.field(deep(c.run, e), None, 0, "libyaml::util::Owned<%s>" % ty)
    return Ref(p.cell, p.path, "mut", ty)

def sub(c, r, name):
    """a reference to a field"""
    ty = strip_ty_generics(r.ty)
    t = sty(ty, name)
    return Ref(r.cell, r.path + ((None, c.run.fidx(ty, name), t),), "mut", t)

# ------------------------------------------------------------------ errors
def cstr_inv(run, v, variant, i, r):
    """a CStr points to something"""
    if isinstance(r, Sym) and r.ty.startswith("std::ptr::NonNull<"):
        run.axiom(z3.Not(is_null(run, r)))
vc.TYPE_INV["CStr"] = cstr_inv

def cstr(c, ptr):
    return Adt(CSTR, None, [ptr, Adt("std::marker::PhantomData<&[u8]>", None, [])])

def literal(c, text):
    return cstr(c, ptr_of(c.run, S(text), "std::ptr::NonNull<u8>"))

def problem(c, p, i, default):
    x = c.field(p, None, i, "*const i8")
    if c.branch(is_null(c.run, x)): return literal(c, default)
    return cstr(c, Sym(x.term, "std::ptr::NonNull<u8>"))

def error_value(c, kind, prob, off, pm, ctx, cm):
    mark = lambda m: Adt(MARK, None, [m])
    return mkstruct(c, LERR, kind=kind, problem=prob, problem_offset=off, problem_mark=mark(pm), context=ctx, context_mark=mark(cm))

def parse_error_of(c, sys):
    """libyaml's error as it stands: kind, problem, where, context, where"""
    p = lib4.prefix(c.run, deep(c.run, sys), YPA)
    prob = problem(c, p, 1, "libyaml parser failed but there is no error\0")
    x = c.field(p, None, 5, "*const i8")
    ctx = none(OCSTR) if c.branch(is_null(c.run, x)) else some(OCSTR, cstr(c, Sym(x.term, "std::ptr::NonNull<u8>")))
    return error_value(c, c.field(p, None, 0, Y + "yaml_error_type_t"), prob, c.field(p, None, 2, "u64"), c.field(p, None, 4, SYSMARK), ctx, c.field(p, None, 6, SYSMARK))

def emit_error_of(c, sys):
    """libyaml's error as it stands: kind and problem, no position"""
    p = lib4.prefix(c.run, deep(c.run, sys), YEM)
    prob = problem(c, p, 1, "libyaml emitter failed but there is no error\0")
    zero = Sym(z3.Const("zeroed " + SYSMARK, U), SYSMARK)
    return error_value(c, c.field(p, None, 0, Y + "yaml_error_type_t"), prob, z3.IntVal(0), zero, none(OCSTR), zero)

# ------------------------------------------------------------------ emitter
def failed(c, r):
    return not c.branch(ok_of(c.run, r))

def emitter_error(c, e):
    """the writer's error if there is one (and then it is gone), else libyaml's"""
    p = pin_of(c, e)
    w = get(c, p, "write_error")
    if c.case(w) == "Some":
        put(c, p, "write_error", none(OIO))
        return Adt(EERR, "Io", [c.field(w, "Some", 0, IOE)])
    return Adt(EERR, "Libyaml", [emit_error_of(c, sub(c, p, "sys"))])

def tag_ptr(c, t):
    """the tag's bytes with a zero behind them, or null"""
    if c.case(t) == "None": return Sym(nullptr(c.run), "*const u8")
    return ptr_of(c.run, z3.Concat(strof(c.run, c.field(t, "Some", 0, "std::string::String")), S("\0")))

STYLES = dict(Any="YAML_ANY_SCALAR_STYLE", Plain="YAML_PLAIN_SCALAR_STYLE", SingleQuoted="YAML_SINGLE_QUOTED_SCALAR_STYLE", Literal="YAML_LITERAL_SCALAR_STYLE")

def emit(c, e, x):
    """every event reaches libyaml as it is: tags and text unchanged, implicit where there is no tag; failures are reported"""
    run = c.run
    emitter = sub(c, pin_of(c, e), "sys")
    ev = c.mkref(uninit(run, YEV), "mut", YEV)
    k = c.case(x)
    null = Sym(nullptr(run), "*const u8")
    T_ = z3.BoolVal(True)
    f = lambda ty, name, t: c.field(c.field(x, k, 0, ty), None, run.fidx(ty, name), t)
    if k == "StreamStart": r = libyaml(run, "yaml_stream_start_event_initialize", [ev, enumv("yaml_encoding_t", "YAML_UTF8_ENCODING")], SUCCESS)
    elif k == "DocumentStart": r = libyaml(run, "yaml_document_start_event_initialize", [ev, null, null, null, T_], SUCCESS)
    elif k == "DocumentEnd": r = libyaml(run, "yaml_document_end_event_initialize", [ev, T_], SUCCESS)
    elif k == "Scalar":
        text = strof(run, f(cs.SC, "value", "&str"))
        tag = tag_ptr(c, f(cs.SC, "tag", OSTR))
        n = z3.Length(text)
        if not c.branch(n < 2**31 - 1):
            return err(c.ret, Adt(EERR, "Io", [uninterp(run, "io::Error::new", [run.term(Adt("std::io::ErrorKind", "InvalidInput", [])), S("scalar is too long for libyaml")], IOE)]))
        plain = z3.simplify(is_null(run, tag))
        style = enumv("yaml_scalar_style_t", STYLES[c.case(f(cs.SC, "style", cs.STYLE))])
        r = libyaml(run, "yaml_scalar_event_initialize", [ev, null, tag, ptr_of(run, text), n, plain, plain, style], SUCCESS)
    elif k == "SequenceStart":
        tag = tag_ptr(c, f(cs.SEQ, "tag", OSTR))
        r = libyaml(run, "yaml_sequence_start_event_initialize", [ev, null, tag, is_null(run, tag), enumv("yaml_sequence_style_t", "YAML_ANY_SEQUENCE_STYLE")], SUCCESS)
    elif k == "MappingStart":
        tag = tag_ptr(c, f(cs.MAPP, "tag", OSTR))
        r = libyaml(run, "yaml_mapping_start_event_initialize", [ev, null, tag, is_null(run, tag), enumv("yaml_mapping_style_t", "YAML_ANY_MAPPING_STYLE")], SUCCESS)
    else:
        name = {"StreamEnd": "stream_end", "SequenceEnd": "sequence_end", "MappingEnd": "mapping_end"}[k]
        r = libyaml(run, "yaml_%s_event_initialize" % name, [ev], SUCCESS)
    if failed(c, r): return err(c.ret, Adt(EERR, "Libyaml", [emit_error_of(c, emitter)]))
    r = libyaml(run, "yaml_emitter_emit", [emitter, ev], SUCCESS)
    if failed(c, r): return err(c.ret, emitter_error(c, e))
    return ok(c.ret, UNIT)

def flush(c, e):
    """libyaml's buffer first, then the writer's own; failures are reported"""
    p = pin_of(c, e)
    r = libyaml(c.run, "yaml_emitter_flush", [sub(c, p, "sys")], SUCCESS)
    if failed(c, r): return err(c.ret, emitter_error(c, e))
    w = get(c, p, "write")
    x = uninterp(c.run, "Write::flush", [Ref(w.cell, w.path, "mut", w.ty)], "std::result::Result<(), std::io::Error>")
    if c.case(x) == "Err": return err(c.ret, Adt(EERR, "Io", [c.field(x, "Err", 0, IOE)]))
    return ok(c.ret, UNIT)

def write_handler(c, data, buffer, size):
    """all bytes go to the writer; its error is kept"""
    p = lib4.ptr_cast(c.run, data, "*mut " + PIN)
    w = get(c, p, "write")
    x = uninterp(c.run, "Write::write_all", [Ref(w.cell, w.path, "mut", w.ty), bytes_at(c.run, buffer, size)], "std::result::Result<(), std::io::Error>")
    if c.case(x) == "Ok": return z3.IntVal(1)
    put(c, p, "write_error", some(OIO, c.field(x, "Err", 0, IOE)))
    return z3.IntVal(0)

def emitter_new(c, w):
    """a libyaml emitter that keeps unicode, folds no lines and hands all its bytes to the write handler with this writer"""
    run = c.run
    cell = c.alloc(uninit(run, PIN), "box")
    p = Ref(cell, (), "mut", PIN)
    sys = sub(c, p, "sys")
    libyaml(run, "yaml_emitter_initialize", [sys], SUCCESS)
    libyaml(run, "yaml_emitter_set_unicode", [sys, z3.BoolVal(True)], "()")
    libyaml(run, "yaml_emitter_set_width", [sys, z3.IntVal(-1)], "()")
    put(c, p, "write", w)
    put(c, p, "write_error", none(OIO))
    libyaml(run, "yaml_emitter_set_output", [sys, FnDef("libyaml::emitter::write_handler"), Ref(cell, (), "shared", PIN)], "()")
    return Adt(EM, None, [Ref(cell, (), "box", PIN)])

def emitter_into_inner(c, e):
    """the writer itself"""
    return get(c, pin_of(c, e), "write")

SER = cs.SER
def emitter_call(c, name, s, *a):
    r = uninterp(c.run, "Emitter::" + name, [at(c, s, "emitter")] + list(a), "std::result::Result<(), %s>" % EERR)
    if c.case(r) == "Err":
        raise Return(err(c.ret, callf_from(c, c.field(r, "Err", 0, EERR))))

def callf_from(c, e):
    return call(c, "<error::Error as std::convert::From<libyaml::emitter::Error>>::from", [e], [EERR], ERR)

def ser_flush(c, s):
    """the emitter is flushed; its failure is returned"""
    emitter_call(c, "flush", s)
    return ok(c.ret, UNIT)

def emit_opaque(c, e, x):
    r = uninterp(c.run, "Emitter::emit", [e, x], "std::result::Result<(), %s>" % EERR)
    if isinstance(x, Adt) and x.variant == "StreamStart": c.run.axiom(c.run.is_variant(r, "Ok"))      # writes nothing: it fails only when memory runs out
    return r

def ser_new(c, w):
    """an emitter for this writer, told that the stream starts; nothing open, nothing pending"""
    em = uninterp(c.run, "Emitter::new", [Ref(c.alloc(w, "box"), (), "box", "W")], EM)
    cell = c.mkref(em, "mut", EM)
    emit_opaque(c, cell, Adt(EEV, "StreamStart", []))
    return mkstruct(c, SER, depth=z3.IntVal(0), state=Adt(cs.STATE, "NothingInParticular", []), emitter=c.load(cell.cell, cell.path), writer=Adt("std::marker::PhantomData<W>", None, []))

def ser_into_inner(c, s):
    """the stream is ended and flushed, whose failures are returned; then the writer itself"""
    r = c.mkref(s, "mut", SER)
    emitter_call(c, "emit", r, Adt(EEV, "StreamEnd", []))
    emitter_call(c, "flush", r)
    w = emitter_into_inner(c, at(c, r, "emitter"))
    return ok(c.ret, c.load(w.cell, w.path))

def to_writer(c, w, v):
    """the value serializes itself to a new serializer of this writer; its result is the result"""
    s = c.mkref(ser_new(c, w), "mut", SER)
    return uninterp(c.run, "Serialize::serialize", [v, s], c.ret)

def writer_call(c, w, v):
    c.run.wrote = True
    return uninterp(c.run, "ser::to_writer", [w, v], UR)

def to_string(c, v):
    """what to_writer wrote, as text"""
    r = c.mkref(S(""), "mut", "std::vec::Vec<u8>")
    if getattr(c.run, "wrote", False): x = writer_call(c, r, v)
    else:                     # by hand, not through to_writer
        c0, c.ret = c.ret, UR
        x = to_writer(c, r, v)
        c.ret = c0
    q(c, x, "()")
    FE = "std::string::FromUtf8Error"
    t = call(c, "std::string::String::from_utf8", [c.load(r.cell, r.path)], ["std::vec::Vec<u8>"], "std::result::Result<std::string::String, %s>" % FE)
    if c.case(t) == "Err": return err(c.ret, new_error(c, "FromUtf8", c.field(t, "Err", 0, FE)))
    return ok(c.ret, c.field(t, "Ok", 0, "std::string::String"))

UR = RESULT % "()"
# ------------------------------------------------------------------ C strings
def cstr_len(c, s):
    """the bytes before the first zero byte"""
    return cstrlen(c.run, c.field(s, None, 0, "std::ptr::NonNull<u8>"))

def cstr_bytes(c, s):
    """the bytes before the first zero byte"""
    p = c.field(s, None, 0, "std::ptr::NonNull<u8>")
    return bytes_at(c.run, p, cstrlen(c.run, p))

def text_at(c, p):
    return bytes_at(c.run, p, cstrlen(c.run, p))

def optional(ty):
    def f(c, p):
        if c.branch(is_null(c.run, p)): return none(c.ret)
        return some(c.ret, Adt(ty, None, [text_at(c, p)]))
    f.__doc__ = "nothing for a null pointer, else the bytes of the C string"
    return f

# ------------------------------------------------------------------ events
DATA = Y + "yaml::unnamed_yaml_event_t_data"
EVTY, EVDATA, EVSTART, EVEND = range(4)
U8 = "*mut u8"
MEMBERS = dict(alias=3, scalar=4, sequence_start=5, mapping_start=6)     # of unsafe_libyaml's union
PLAIN = dict(PLAIN="Plain", SINGLE_QUOTED="SingleQuoted", DOUBLE_QUOTED="DoubleQuoted", LITERAL="Literal", FOLDED="Folded")

def member(c, ev, name, i, ty):
    m = c.field(c.field(ev, None, EVDATA, DATA), None, MEMBERS[name], DATA + "_" + name)
    return c.field(m, None, i, ty)

def index_of(c, ev, which):
    return c.field(c.field(ev, None, which, SYSMARK), None, 0, "u64")

def event_kind(c, ev):
    return c.case(c.field(ev, None, EVTY, Y + "yaml_event_type_t"))

def opt_node(c, ev, name):
    """anchor and tag of a node"""
    x = {}
    for f, i, ty in (("anchor", 0, ANCHOR), ("tag", 1, TAG)):
        ret = c.ret
        c.ret = "std::option::Option<%s>" % ty
        x[f] = optional(ty)(c, member(c, ev, name, i, U8))
        c.ret = ret
    return x

ANCHOR, TAG, PEV = "libyaml::parser::Anchor", "libyaml::tag::Tag", "libyaml::parser::Event"
OSL = "std::option::Option<&[u8]>"

def event_facts(run, ev, n):
    """what libyaml promises of an event: it has a type; aliases have names; scalars have a style; positions lie in the input"""
    c = SpecCtx(run, [], None)
    D = lambda ty, name: run.discr_of(Y + ty, name)
    d = event_type(run, ev)
    al = member(c, ev, "alias", 0, U8)
    st = run.discr(member(c, ev, "scalar", 6, Y + "yaml_scalar_style_t"))
    a, b = index_of(c, ev, EVSTART), index_of(c, ev, EVEND)
    return [d != D("yaml_event_type_t", "YAML_NO_EVENT"),
            z3.Implies(d == D("yaml_event_type_t", "YAML_ALIAS_EVENT"), z3.Not(is_null(run, al))),
            z3.Implies(d == D("yaml_event_type_t", "YAML_SCALAR_EVENT"), st != D("yaml_scalar_style_t", "YAML_ANY_SCALAR_STYLE")),
            z3.And(a <= b, b <= n)]

def event_type(run, ev):
    return run.discr(run.field(ev, None, EVTY, Y + "yaml_event_type_t"))

def cow_len(run, cow):
    if isinstance(cow, Adt): return z3.Length(strof(run, cow.fields[0]))
    return z3.If(run.is_variant(cow, "Borrowed"), z3.Length(strof(run, run.field(cow, "Borrowed", 0, "&[u8]"))), z3.Length(strof(run, run.field(cow, "Owned", 0, "std::vec::Vec<u8>"))))

# ghost state of a libyaml parser: how long its input is, whether it has delivered the end of the stream, whether it has failed
def input_len(run, sys): return run.app("ghost: input length", [run.term(sys)], INT)
def over(run, sys): return run.app("ghost: stream over", [run.term(sys)], BOOL)
def no_error(run, sys):
    e = run.field(lib4.prefix(run, sys, YPA), None, 0, Y + "yaml_error_type_t")
    return run.discr(e) == run.discr_of(Y + "yaml_error_type_t", "YAML_NO_ERROR")
def at_ref(run, r): return run.load(r.cell, r.path)

def promise_initialize(run, vals):
    def after(r):
        s = at_ref(run, vals[0])
        run.axiom(z3.And(z3.Not(over(run, s)), no_error(run, s)))
    return after

def promise_encoding(run, vals):
    s = at_ref(run, vals[0])
    def after(r):
        t = at_ref(run, vals[0])
        run.axiom(z3.And(over(run, t) == over(run, s), input_len(run, t) == input_len(run, s), no_error(run, t) == no_error(run, s)))
    return after

def promise_input(run, vals):
    s = at_ref(run, vals[0])
    def after(r):
        t = at_ref(run, vals[0])
        run.axiom(z3.And(over(run, t) == over(run, s), input_len(run, t) == vals[2], no_error(run, t) == no_error(run, s)))
    return after

def promise_parse(run, vals):
    s = at_ref(run, vals[0])
    def after(r):
        t, ev = at_ref(run, vals[0]), at_ref(run, vals[1])
        good = z3.And(no_error(run, s), z3.Not(over(run, s)))
        end = event_type(run, ev) == run.discr_of(Y + "yaml_event_type_t", "YAML_STREAM_END_EVENT")
        run.axiom(input_len(run, t) == input_len(run, s))
        run.axiom(z3.Implies(good, z3.If(ok_of(run, r), z3.And(*event_facts(run, ev, input_len(run, s)), no_error(run, t), over(run, t) == end), z3.Not(no_error(run, t)))))
    return after

PROMISES.update(yaml_parser_initialize=promise_initialize, yaml_parser_set_encoding=promise_encoding, yaml_parser_set_input_string=promise_input, yaml_parser_parse=promise_parse)

def belongs(run, parser):
    """libyaml reads the input the parser keeps"""
    c = SpecCtx(run, [], None)
    p = pin_of(c, parser, PPIN)
    return input_len(run, get(c, p, "sys")) == cow_len(run, get(c, p, "input"))

def going(run, parser):
    """and there is more to come"""
    c = SpecCtx(run, [], None)
    return z3.Not(over(run, get(c, pin_of(c, parser, PPIN), "sys")))

def parser_new(c, cow):
    """a libyaml parser reading exactly these bytes as UTF-8"""
    run = c.run
    p = Ref(c.alloc(uninit(run, PPIN), "box"), (), "box", PPIN)
    sys = sub(c, Ref(p.cell, (), "mut", PPIN), "sys")
    libyaml(run, "yaml_parser_initialize", [sys], SUCCESS)
    libyaml(run, "yaml_parser_set_encoding", [sys, enumv("yaml_encoding_t", "YAML_UTF8_ENCODING")], "()")
    b = lib4.cow_bytes(run, cow)
    libyaml(run, "yaml_parser_set_input_string", [sys, ptr_of(run, b), z3.Length(b)], "()")
    put(c, Ref(p.cell, (), "mut", PPIN), "input", cow)
    return Adt(PARSER, None, [p])

def parser_next(c, s):
    """the next event and where it starts, or libyaml's error; after an error, that error again"""
    run = c.run
    p = pin_of(c, s, PPIN)
    sys = sub(c, p, "sys")
    if not c.branch(no_error(run, at_ref(run, sys))): return err(c.ret, parse_error_of(c, sys))
    ev = c.mkref(uninit(run, YEV), "mut", YEV)
    r = libyaml(run, "yaml_parser_parse", [sys, ev], SUCCESS)
    if failed(c, r): return err(c.ret, parse_error_of(c, sys))
    e = at_ref(run, ev)
    out = convert(c, e, get(c, p, "input"))
    mark = Adt(MARK, None, [c.field(e, None, EVSTART, SYSMARK)])
    return ok(c.ret, Adt("(%s, %s)" % (PEV, MARK), None, [out, mark]))

def next_pre(run, s):
    v = deep(run, s)
    return [("libyaml reads the parser's input", belongs(run, v)), ("the stream is not over", going(run, v))]

def next_facts(run, s, r):
    """what a caller may rely on after next"""
    v = deep(run, s)
    c = SpecCtx(run, [], None)
    if c.case(r) == "Err": return [("libyaml reads the parser's input", belongs(run, v))]
    ev = c.field(c.field(r, "Ok", 0, "(%s, %s)" % (PEV, MARK)), None, 0, PEV)
    return [("libyaml reads the parser's input", belongs(run, v)), ("more to come unless that was the end", going(run, v) == z3.Not(run.is_variant(ev, "StreamEnd")))]

def convert(c, ev, cow):
    """the event as libyaml has it: anchors and tags, the scalar's bytes and style, and its text in a borrowed input"""
    ev = deep(c.run, ev)
    k = event_kind(c, ev)
    mk = lambda v, *f: Adt(PEV, v, list(f))
    simple = dict(STREAM_START="StreamStart", STREAM_END="StreamEnd", DOCUMENT_START="DocumentStart", DOCUMENT_END="DocumentEnd", SEQUENCE_END="SequenceEnd", MAPPING_END="MappingEnd")
    k = k[len("YAML_"):-len("_EVENT")]
    if k in simple: return mk(simple[k])
    if k == "ALIAS": return mk("Alias", Adt(ANCHOR, None, [text_at(c, member(c, ev, "alias", 0, U8))]))
    if k in ("SEQUENCE_START", "MAPPING_START"):
        ty = "SequenceStart" if k[0] == "S" else "MappingStart"
        return mk(ty, mkstruct(c, "libyaml::parser::" + ty, **opt_node(c, ev, k.lower())))
    if k == "SCALAR":
        x = opt_node(c, ev, "scalar")
        text = bytes_at(c.run, member(c, ev, "scalar", 2, U8), member(c, ev, "scalar", 3, "u64"))
        style = c.case(member(c, ev, "scalar", 6, Y + "yaml_scalar_style_t"))
        if style == "YAML_ANY_SCALAR_STYLE": c.panic("a scalar without a style")
        cow = deep(c.run, cow)
        r = none(OSL)
        if c.case(cow) == "Borrowed":
            s = strof(c.run, c.field(cow, "Borrowed", 0, "&[u8]"))
            a, b = index_of(c, ev, EVSTART), index_of(c, ev, EVEND)
            r = some(OSL, lib.slice_sub(c.run, s, a, b) if hasattr(lib, "slice_sub") else z3.SubString(s, a, b - a))
        return mk("Scalar", mkstruct(c, ce.SCALAR, value=text, style=Adt("libyaml::parser::ScalarStyle", PLAIN[style[5:-len("_SCALAR_STYLE")]], []), repr=r, **x))
    c.panic("not an event")

def convert_pre(run, ev, cow):
    ev, cow = deep(run, ev), deep(run, cow)
    return [("libyaml's promises about events", z3.And(*event_facts(run, ev, cow_len(run, cow))))]

def len_loop():
    def inv(run, view):
        c = SpecCtx(run, [], None)
        s = run.load(view.cell("self"))
        p = c.field(s, None, 0, "std::ptr::NonNull<u8>")
        b, o = lib4.base_off(run, run.load(view.var("*mut u8")))
        return [("within the string", z3.And(z3.BoolVal(b.eq(p.term)), o >= 0, o <= cstrlen(run, p)))]
    def havoc(run, view):
        s = run.load(view.cell("self"))
        p = run.field(s, None, 0, "std::ptr::NonNull<u8>")
        run.store(view.var("*mut u8"), (), lib4.padd(run, Sym(p.term, "*mut u8"), run.fresh("offset", INT)))
    def left(run, view):
        p = SpecCtx(run, [], None).field(run.load(view.cell("self")), None, 0, "std::ptr::NonNull<u8>")
        return cstrlen(run, p) - lib4.base_off(run, run.load(view.var("*mut u8")))[1]
    return exe.LoopSpec(inv, havoc=havoc, decreases=left)

def register(R):
    A = ("C01", "C02", "C20")
    R.add("Emitter::emit", emit, A, opaque=emit_opaque)
    R.add("Emitter::error", emitter_error, ("C20",))
    R.add("Emitter::flush", flush, ("C20",), opaque=True)
    R.add("libyaml::emitter::write_handler", write_handler, ("C02", "C20"))
    R.add("Error::parse_error", parse_error_of, ("C16",))
    R.add("Error::emit_error", emit_error_of, ("C20",))
    R.add("CStr::len", cstr_len, ("C10", "C16"), loops={0: len_loop()})
    R.add("CStr::to_bytes", cstr_bytes, ("C10", "C16"))
    R.add("libyaml::parser::optional_anchor", optional(ANCHOR), ("C10",))
    R.add("libyaml::parser::optional_tag", optional(TAG), ("C05", "C06"))
    R.add("libyaml::parser::convert_event", convert, ("C01", "C02", "C05", "C10", "C21"), pre=convert_pre)
    R.add("Parser::new", parser_new, ("C13", "C15"), opaque=cl.new_parser,
          ensures=lambda run, args, res, init: [("libyaml reads the parser's input", belongs(run, res)), ("the stream is not over", going(run, res))])
    R.add("Parser::next", parser_next, ("C01", "C10", "C13", "C16", "C21"), opaque=cl.parser_next, pre=next_pre,
          ensures=lambda run, args, res, init: next_facts(run, args[0], res))
    R.add("Emitter::new", emitter_new, ("C01", "C02", "C20"), opaque=True)
    R.add("Emitter::into_inner", emitter_into_inner, ("C20",))
    R.add("Serializer::flush", ser_flush, ("C20",))
    R.add("Serializer::new", ser_new, ("C01", "C14", "C20"))
    R.add("Serializer::into_inner", ser_into_inner, ("C20",))
    R.add("ser::to_writer", to_writer, ("C20",), opaque=writer_call)
    R.add("ser::to_string", to_string, ("C20", "C01"))
