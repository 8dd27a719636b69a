"""Assumed contracts, continued: raw pointers, the C API of unsafe-libyaml, C strings.

A pointer to bytes (*const u8, *mut i8, NonNull<u8>, ..) is a name for an address: what lies there is byte_at(pointer, offset), and
null(pointer) says whether it is the null pointer. A pointer to anything else refers to its cell like a reference."""
import re
import z3
import vc, exe
from vc import *
from exe import *
from lib import lib, LIB, some, none, ok, err, strof, deep
from mir import short, strip_ty_generics

BYTEPTR = re.compile(r"^(\*(const|mut) |std::ptr::NonNull<)(u8|i8|\[u8\])>?$")
vc.EXT_ENUMS.update({
    "unsafe_libyaml::yaml_encoding_t": ["YAML_ANY_ENCODING", "YAML_UTF8_ENCODING", "YAML_UTF16LE_ENCODING", "YAML_UTF16BE_ENCODING"],
    "unsafe_libyaml::yaml_error_type_t": ["YAML_%s_ERROR" % n for n in "NO MEMORY READER SCANNER PARSER COMPOSER WRITER EMITTER".split()],
    "unsafe_libyaml::yaml_scalar_style_t": ["YAML_%s_SCALAR_STYLE" % n for n in "ANY PLAIN SINGLE_QUOTED DOUBLE_QUOTED LITERAL FOLDED".split()],
    "unsafe_libyaml::yaml_sequence_style_t": ["YAML_%s_SEQUENCE_STYLE" % n for n in "ANY BLOCK FLOW".split()],
    "unsafe_libyaml::yaml_mapping_style_t": ["YAML_%s_MAPPING_STYLE" % n for n in "ANY BLOCK FLOW".split()],
    "unsafe_libyaml::yaml_event_type_t": ["YAML_%s_EVENT" % n for n in "NO STREAM_START STREAM_END DOCUMENT_START DOCUMENT_END ALIAS SCALAR SEQUENCE_START SEQUENCE_END MAPPING_START MAPPING_END".split()],
})

# ------------------------------------------------------------------ pointers to bytes
def bptr(v):
    if isinstance(v, Ref): raise Unsupported("pointer to a cell used as a pointer to bytes")
    return v.term

def nullptr(run):
    t = z3.Const("null pointer", U)
    run.axiom(run.app("null", [t], BOOL))
    return t

def is_null(run, v):
    if isinstance(v, Ref): return z3.BoolVal(False)
    return run.app("null", [bptr(v)], BOOL)

def ptr_of(run, s, ty="*const u8"):
    """the address of a string's bytes"""
    t = run.app("ptr_of", [s], U)
    run.axiom(z3.Not(run.app("null", [t], BOOL)))
    return Sym(t, ty)

def base_off(run, v):
    d = run.__dict__.setdefault("poff", {})
    x = d.get(bptr(v).get_id())
    return (x[0], x[1]) if x is not None else (bptr(v), z3.IntVal(0))

def padd(run, v, k, ty=None):
    b, o = base_off(run, v)
    o = z3.simplify(o + k)
    if z3.is_int_value(o) and o.as_long() == 0: return Sym(b, ty or v.ty)
    t = run.app("padd", [b, o], U)
    run.__dict__.setdefault("poff", {})[t.get_id()] = (b, o, t)
    run.axiom(run.app("null", [t], BOOL) == run.app("null", [b], BOOL))
    return Sym(t, ty or v.ty)

def cstrlen(run, v):
    """the number of bytes before the first zero byte"""
    n = run.app("cstrlen", [bptr(v)], INT)
    run.axiom(z3.And(n >= 0, n <= 2**63 - 1))
    return n

def byte_at(run, v):
    """reading through a pointer into a C string: only up to its zero byte"""
    b, o = base_off(run, v)
    n = cstrlen(run, Sym(b, "*const u8"))
    run.oblige("read within the C string", z3.And(z3.Not(run.app("null", [b], BOOL)), o >= 0, o <= n), "pointer")
    x = run.app("byte_at", [b, o], INT)
    run.axiom(z3.And(x >= 0, x <= 255, z3.Implies(z3.And(o >= 0, o < n), x != 0), z3.Implies(o == n, x == 0)))
    return x
vc.BYTE_AT = byte_at

def bytes_at(run, v, n):
    s = run.app("bytes_at", [bptr(v), n], STR)
    if z3.is_app(n) and n.decl().name().startswith("cstrlen"):
        run.axiom(z3.Length(s) == n)       # (not of buffers: z3 would build strings of any size)
    return s

@lib("std::ptr::null", "std::ptr::null_mut")
def l_null(run, c):
    if BYTEPTR.match(c.ret) or True: return Sym(nullptr(run), c.ret)

@lib("re:std::ptr::(const|mut)_ptr::<impl \\*(const|mut) .*>::is_null", "re:std::ptr::(const|mut)_ptr::is_null")
def l_is_null(run, c):
    return is_null(run, c.args[0])

@lib("core::str::<impl str>::as_ptr", "re:core::slice::<impl \\[u8\\]>::as_ptr", "std::string::String::as_ptr", "std::vec::Vec::as_ptr")
def l_as_ptr(run, c):
    return ptr_of(run, strof(run, c.args[0]), c.ret)

@lib("re:std::ptr::(const|mut)_ptr::<impl \\*(const|mut) .*>::(add|offset_from|cast|write|cast_mut|cast_const)")
def l_ptr(run, c):
    v = c.args[0]
    if c.method == "add":
        return padd(run, v, c.args[1], c.ret)
    if c.method == "offset_from":
        (b, o), (b2, o2) = base_off(run, v), base_off(run, c.args[1])
        if not b.eq(b2): return NotImplemented
        return z3.simplify(o - o2)
    if c.method == "write":
        if not isinstance(v, Ref): return NotImplemented
        run.store(v.cell, v.path, c.args[1])
        return UNIT
    return ptr_cast(run, v, c.ret)

def ptr_cast(run, v, ty):
    """the same address seen as another type"""
    t = ty[len("std::ptr::NonNull<"):-1] if ty.startswith("std::ptr::NonNull<") else pointee(ty)
    if isinstance(v, Ref):
        if "c_void" in t: return Ref(v.cell, v.path, "shared", v.ty)
        x = run.load(v.cell, v.path)
        if isinstance(x, Sym) and "c_void" in x.ty and not x.over and not v.path:
            run.mem[v.cell] = Sym(x.term, t)
            run.matinit.setdefault(v.cell, run.mem[v.cell])
            return Ref(v.cell, (), "mut", t)
        if v.ty.startswith("dyn ") and is_param(t):
            # back to the type the trait object was made from: ser.rs makes every emitter's writer from the serializer's W
            return Ref(v.cell, v.path, "mut", t)
        if v.ty == t or "c_void" in v.ty: return Ref(v.cell, v.path, "mut", t)
        raise Unsupported("pointer cast %s -> %s" % (v.ty, t))
    return Sym(v.term, ty)

@lib("std::ptr::NonNull::new")
def l_nonnull(run, c):
    v = c.args[0]
    if run.branch(is_null(run, v)): return none(c.ret)
    return some(c.ret, v if isinstance(v, Ref) else Sym(v.term, ty_args(c.ret)[0]))

@lib("std::ptr::NonNull::as_ptr", "std::ptr::NonNull::cast", "std::ptr::NonNull::new_unchecked")
def l_nn(run, c):
    v = c.args[0]
    return v if isinstance(v, Ref) else Sym(v.term, c.ret)

@lib("re:<NonNull as From>::from")
def l_nn_from(run, c):
    return ptr_of(run, strof(run, c.args[0]), c.ret)

@lib("std::slice::from_raw_parts")
def l_raw_parts(run, c):
    if c.ret not in STRTY: return NotImplemented
    return bytes_at(run, c.args[0], c.args[1])

# ------------------------------------------------------------------ owned, possibly uninitialised memory
def uninit(run, ty):
    return Sym(z3.Const("uninitialised " + ty, U), ty)

@lib("std::mem::MaybeUninit::uninit")
def l_uninit(run, c):
    return uninit(run, ty_args(c.ret)[0])

@lib("std::mem::MaybeUninit::zeroed")
def l_zeroed(run, c):
    return Sym(z3.Const("zeroed " + ty_args(c.ret)[0], U), ty_args(c.ret)[0])

@lib("std::mem::MaybeUninit::assume_init")
def l_assume_init(run, c):
    return c.args[0]

@lib("std::mem::MaybeUninit::as_mut_ptr")
def l_as_mut_ptr(run, c):
    r = c.args[0]
    return Ref(r.cell, r.path, "mut", pointee(c.ret))

@lib("libyaml::util::Owned::new_uninit", "Owned::new_uninit")
def l_owned_new(run, c):
    t = ty_args(c.ret)[-1]
    return Ref(run.alloc(uninit(run, t), "box"), (), "box", t)

@lib("libyaml::util::Owned::assume_init", "Owned::assume_init")
def l_owned_init(run, c):
    return c.args[0]

@lib("<Owned as Deref>::deref")
def l_owned_deref(run, c):
    o = deep1(run, c.args[0])
    if not (isinstance(o, Ref) and o.kind == "box"): return NotImplemented
    t = ty_args(c.ret.lstrip("&").strip())[0]
    return run.mkref(Adt("libyaml::util::InitPtr", None, [Ref(o.cell, o.path, "mut", t)]), "shared", "libyaml::util::InitPtr<%s>" % t)

def deep1(run, r):
    return run.load(r.cell, r.path) if isinstance(r, Ref) and r.kind != "box" else r

# ------------------------------------------------------------------ libyaml
SUCCESS = "unsafe_libyaml::success::Success"
def ok_of(run, r):
    return run.field(r, None, 0, "bool")

@lib("<Success as Deref>::deref")
def l_success(run, c):
    s = deep(run, c.args[0])
    return run.mkref(Adt("unsafe_libyaml::success::Failure", None, [z3.Not(ok_of(run, s))]), "shared", "unsafe_libyaml::success::Failure")

def prefix(run, v, ty):
    """the public part of a libyaml parser or emitter"""
    return run.mat(run.app("prefix", [run.term(v)], U), ty + "_prefix")

@lib("<yaml_parser_t as Deref>::deref", "<yaml_emitter_t as Deref>::deref")
def l_prefix(run, c):
    v = deep(run, c.args[0])
    return run.mkref(prefix(run, v, v.ty), "shared", v.ty + "_prefix")

@lib("<yaml_error_type_t as PartialEq>::ne", "<yaml_error_type_t as PartialEq>::eq")
def l_errty(run, c):
    a, b = deep(run, c.args[0]), deep(run, c.args[1])
    e = run.discr(a) == run.discr(b)
    return z3.Not(e) if c.method == "ne" else e

def libyaml(run, name, vals, rty):
    """a call into libyaml: an unknown but fixed function of its arguments"""
    if name in ("yaml_emitter_emit", "yaml_emitter_flush") and isinstance(vals[0], Ref) and vals[0].path:
        # through the write handler libyaml reaches all that is pinned with the emitter
        vals = list(vals) + [Ref(vals[0].cell, vals[0].path[:-1], "mut", "libyaml::emitter::EmitterPinned")]
    f = PROMISES.get(name)
    after = f(run, vals) if f is not None else None
    if name in SETTERS: r = setter(run, name, vals)
    else: r = uninterp(run, "unsafe_libyaml::" + name, vals, rty)
    if name in ("yaml_parser_initialize", "yaml_emitter_initialize"):
        run.axiom(ok_of(run, r))           # it fails only when memory runs out
    if after is not None: after(r)
    return r
# functions that each set one independent thing of the parser or emitter: their order does not matter
SETTERS = {"yaml_%s_set_%s" % (a, b) for a, bs in dict(emitter="unicode width output encoding canonical indent break", parser="encoding input_string").items() for b in bs.split()}
def setter(run, name, vals):
    sys = run.load(vals[0].cell, vals[0].path)
    t, args = run.term(sys), [run.term(v) for v in vals[1:]]
    chain = [(name, args)]
    while z3.is_app(t) and t.decl().name().split("#")[0] in {"set:" + s for s in SETTERS}:
        chain.append((t.decl().name().split("#")[0][4:], [t.arg(i) for i in range(1, t.num_args())]))
        t = t.arg(0)
    for n, a in sorted(chain[::-1], key=lambda x: x[0]):
        t = run.app("set:" + n, [t] + a, U)
    run.store(vals[0].cell, vals[0].path, Sym(t, sys.ty))
    return UNIT

PROMISES = {}      # name -> f(run, args), called before, returns what to assume after it, a function of the result

@lib("<Cow as Deref>::deref")
def l_cow(run, c):
    """the bytes, borrowed or owned"""
    v = deep(run, c.args[0])
    if "[u8]" not in v.ty: return NotImplemented
    return cow_bytes(run, v)

def cow_bytes(run, v):
    return strof(run, run.field(v, "Borrowed", 0, "&[u8]") if run.branch(run.is_variant(v, "Borrowed")) else run.field(v, "Owned", 0, "std::vec::Vec<u8>"))

@lib("re:unsafe_libyaml::yaml_\\w+")
def l_libyaml(run, c):
    return libyaml(run, c.method, c.args, c.ret)

vc.EXT_ENUMS["std::io::ErrorKind"] = """NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted NotConnected AddrInUse
    AddrNotAvailable NetworkDown BrokenPipe AlreadyExists WouldBlock NotADirectory IsADirectory DirectoryNotEmpty ReadOnlyFilesystem FilesystemLoop
    StaleNetworkFileHandle InvalidInput InvalidData TimedOut WriteZero StorageFull NotSeekable QuotaExceeded FileTooLarge ResourceBusy ExecutableFileBusy
    Deadlock CrossesDevices TooManyLinks InvalidFilename ArgumentListTooLong Interrupted Unsupported UnexpectedEof OutOfMemory InProgress Other Uncategorized""".split()

@lib("std::io::Error::new")
def l_io_error(run, c):
    return uninterp(run, "io::Error::new", [run.term(a) for a in c.args], c.ret)

@lib("std::io::sink")
def l_sink(run, c):
    return Adt(c.ret, None, [])

@lib("std::boxed::Box::into_raw", "Box::into_raw")
def l_into_raw(run, c):
    b = c.args[0]
    return Ref(b.cell, b.path, "mut", b.ty)

@lib("std::boxed::Box::from_raw", "Box::from_raw")
def l_from_raw(run, c):
    b = c.args[0]
    if not isinstance(b, Ref): return NotImplemented
    return Ref(b.cell, b.path, "box", b.ty)

@lib("<Box as Drop>::drop")
def l_box_drop(run, c):
    return UNIT

@lib("re:<[iu](8|16|32|64|128|size) as Ord>::(min|max)", "std::cmp::min", "std::cmp::max")
def l_minmax(run, c):
    a, b = c.args
    if not (is_z3(a) and a.sort() == INT): return NotImplemented
    first = run.branch(a <= b if c.method == "min" else a > b)
    return a if first else b
