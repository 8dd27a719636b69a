"""ser.rs: C14 (balanced event streams), C02, C03 (scalars), C06 (tags), C20 (errors of the emitter)"""
from contracts.dsl import *
from engine import spec_call
from contracts import c_value as cv, c_mapping as cm, c_number as cn, c_tagged as ct, c_scalar as cs
import lib, lib2

REL, STRING = "src/ser.rs", "std::string::String"
SER, STATE, EM = "ser::Serializer", "ser::State", "libyaml::emitter::Emitter"
EV, SC, SEQ, MAPP, STYLE, EERR = ("libyaml::emitter::" + n for n in ("Event", "Scalar", "Sequence", "Mapping", "ScalarStyle", "Error"))
OS = "std::option::Option<%s>" % STRING
UR = RESULT % "()"
STRUCTS[SER] = (REL, [("depth", "usize", "mut"), ("state", STATE, "mut"), ("emitter", EM, "mut"), ("writer", "std::marker::PhantomData<W>", "mut")])
STRUCTS[SC] = ("src/libyaml/emitter.rs", [("tag", OS, "mut"), ("value", "&str", "mut"), ("style", STYLE, "mut")])
STRUCTS[SEQ] = ("src/libyaml/emitter.rs", [("tag", OS, "mut")])
STRUCTS[MAPP] = ("src/libyaml/emitter.rs", [("tag", OS, "mut")])

def own(c, s):
    """the serializer behind references"""
    while True:
        v = c.load(s.cell, s.path)
        if not isinstance(v, Ref): return s
        s = v
def state(c, s):
    return c.case(get(c, s, "state"))
def set_state(c, s, name, *f):
    put(c, s, "state", Adt(STATE, name, list(f)))

def emit(c, s, event):
    """one event to the emitter, whose error is returned"""
    if c.run.__dict__.get("ghost") is not None:
        c.run.ghost.append((event.variant, tag_of(c, event)))
        return
    e = at(c, s, "emitter")
    r = uninterp(c.run, "Emitter::emit", [e, event], "std::result::Result<(), %s>" % EERR)
    if c.case(r) == "Err":
        c.run.emit_failed = True
        from contracts.c_error import from_emitter
        raise Return(err(c.ret, from_emitter(c, c.field(r, "Err", 0, EERR))))
def tag_of(c, e):
    """in a lemma: the tag of an event, "" for none"""
    if e.variant not in ("Scalar", "SequenceStart", "MappingStart"): return None
    ty = {"Scalar": SC, "SequenceStart": SEQ, "MappingStart": MAPP}[e.variant]
    t = c.field(e.fields[0], None, sidx(c, ty, "tag"), OS)
    return S("") if c.case(t) == "None" else strof(c.run, c.field(t, "Some", 0, STRING))
def ev(name, *f):
    return Adt(EV, name, list(f))

# ------------------------------------------------------------------ where a node begins and ends
def value_start(c, s):
    """a node at depth 0 begins a document"""
    if c.branch(get(c, s, "depth") == 0): emit(c, s, ev("DocumentStart"))
    put(c, s, "depth", get(c, s, "depth") + 1)
    return ok(c.ret, UNIT)
def value_end(c, s):
    """leaving depth 1 ends the document"""
    d = get(c, s, "depth") - 1
    put(c, s, "depth", d)
    if c.branch(d == 0): emit(c, s, ev("DocumentEnd"))
    return ok(c.ret, UNIT)
def take_tag(c, s):
    """the pending tag, with its !, is used up"""
    if state(c, s) != "FoundTag": return none(OS)
    t = strof(c.run, c.field(get(c, s, "state"), "FoundTag", 0, STRING))
    set_state(c, s, "NothingInParticular")
    return some(OS, z3.If(z3.PrefixOf(S("!"), t), t, z3.Concat(S("!"), t)))
def flush_start(c, s):
    """a map of one entry that turned out not to be a tag is begun now"""
    k = state(c, s)
    if k in ("CheckForTag", "CheckForDuplicateTag"):
        set_state(c, s, "NothingInParticular")
        if k == "CheckForTag": mapping_start(c, s)
    return ok(c.ret, UNIT)
def mapping_start(c, s):
    flush_start(c, s)
    value_start(c, s)
    emit(c, s, ev("MappingStart", mkstruct(c, MAPP, tag=take_tag(c, s))))
    return ok(c.ret, UNIT)
def sequence_start(c, s):
    flush_start(c, s)
    value_start(c, s)
    emit(c, s, ev("SequenceStart", mkstruct(c, SEQ, tag=take_tag(c, s))))
    return ok(c.ret, UNIT)
def ending(name):
    def f(c, s):
        """the collection ends, and so does its node"""
        emit(c, s, ev(name))
        return value_end(c, s)
    return f
def emit_scalar(c, s, sc):
    """one scalar event, carrying the pending tag"""
    flush_start(c, s)
    t = take_tag(c, s)
    g = lambda n: c.field(sc, None, sidx(c, SC, n), sty(SC, n))
    value_start(c, s)
    emit(c, s, ev("Scalar", mkstruct(c, SC, tag=g("tag") if t.variant == "None" else t, value=strof(c.run, g("value")), style=g("style"))))
    return value_end(c, s)
def put_scalar(c, s, text, style):
    sc = mkstruct(c, SC, tag=none(OS), value=text, style=Adt(STYLE, style, []))
    if c.run.__dict__.get("ghost") is not None: return emit_scalar(c, own(c, s), sc)
    return callf(c, "Serializer::emit_scalar", [own(c, s), sc], UR)

# ------------------------------------------------------------------ scalars
def z_bool(c, s, b):
    return put_scalar(c, s, z3.If(b, S("true"), S("false")), "Plain")
def z_int(c, s, v):
    """its decimal digits, plain"""
    return put_scalar(c, s, int_text(v), "Plain")
def float_text(c, v):
    """.inf, -.inf, .nan, or ryu's shortest text"""
    if c.branch(z3.fpIsNaN(v)): return S(".nan")
    if c.branch(z3.fpIsInf(v)): return S("-.inf") if c.branch(z3.fpIsNegative(v)) else S(".inf")
    return ryu_text(c.run, v, "f64" if v.sort() == F64 else "f32")
def z_float(c, s, v):
    return put_scalar(c, s, float_text(c, v), "Plain")
def z_char(c, s, x):
    """quoted, always"""
    return put_scalar(c, s, utf8(c.run, x), "SingleQuoted")
def str_style(c, t):
    """literal for several lines; quoted for what a plain scalar would not mean as a string; else libyaml's choice"""
    if c.branch(z3.Contains(t, S("\n"))): return "Literal"
    k, x = cs.plain_row(c, t)
    if k != "str": return "SingleQuoted"
    return "SingleQuoted" if c.branch(inre(t, cs.ZEROPADDED)) else "Any"
def z_str(c, s, x):
    t = strof(c.run, x)
    return put_scalar(c, s, t, str_style(c, t))
def z_unit(c, s, *a):
    return put_scalar(c, s, S("null"), "Plain")
def z_bytes(c, s, b):
    """refused"""
    return err(c.ret, new_error(c, "BytesUnsupported"))
def same(c, s, *a):
    """the value itself"""
    return uninterp(c.run, "Serialize::serialize", [a[-1], s], c.ret)

# ------------------------------------------------------------------ collections and tagged variants
def selfres(f):
    def g(c, s, *a):
        r = spec_call(f, at_unit(c), s, *(a if f in WIDE else ()))
        if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
        return ok(c.ret, s)
    g.__doc__ = f.__doc__
    return g
WIDE = []
def at_unit(c):
    from contracts.c_mapping import at_ret
    return at_ret(c, UR)
def tag_next(c, s, variant):
    """the next node is tagged with the variant's name; two tags on one node are refused"""
    if state(c, s) == "FoundTag":
        raise Return(err(c.ret, new_error(c, "SerializeNestedEnum")))
    flush_start(c, s)
    set_state(c, s, "FoundTag", strof(c.run, variant))
def z_newtype_variant(c, s, name, i, variant, x):
    tag_next(c, s, variant)
    return uninterp(c.run, "Serialize::serialize", [x, s], c.ret)
def z_tuple_variant(c, s, name, i, variant, n):
    tag_next(c, s, variant)
    return sequence_start(c, s)
def z_struct_variant(c, s, name, i, variant, n):
    tag_next(c, s, variant)
    return mapping_start(c, s)
def z_map(c, s, n):
    """a map of one entry may turn out to be a tagged value, unless a tag is pending already"""
    one = c.case(n) == "Some" and c.branch(c.field(n, "Some", 0, "usize") == 1)
    if not one: return mapping_start(c, s)
    if state(c, s) == "FoundTag":
        mapping_start(c, s)
        set_state(c, s, "CheckForDuplicateTag")
    else:
        flush_start(c, s)
        set_state(c, s, "CheckForTag")
    return ok(c.ret, UNIT)
WIDE += [z_map, z_tuple_variant, z_struct_variant]
def z_collect(c, s, x):
    """text, or the tag of the map of one entry being begun"""
    k = state(c, s)
    if k in ("CheckForTag", "CheckForDuplicateTag"):
        cc = cm.at_ret(c, "value::tagged::MaybeTag<%s>" % STRING)
        cc.tys = [c.tys[1]]
        r = ct.check_tag(cc, x)
        kind = c.case(r)
        t = strof(c.run, c.field(r, kind, 0, STRING))
        if kind == "Tag":
            if k == "CheckForDuplicateTag": return err(c.ret, new_error(c, "SerializeNestedEnum"))
            set_state(c, s, "FoundTag", t)
            return ok(c.ret, UNIT)
    else:
        t = display_text(c.run, None, c.tys[1].lstrip("&"), x)
    return z_str(c, s, t)

# ------------------------------------------------------------------ what is inside collections
def client(c, s, x):
    """the client's value, into the same serializer"""
    if c.run.__dict__.get("ghost") is not None: return x(c, own(c, s))
    return uninterp(c.run, "Serialize::serialize", [x, own(c, s)], c.ret)
def item(c, s, x):
    return client(c, s, x)
def m_key(c, s, k):
    flush_start(c, own(c, s))
    return client(c, s, k)
def m_entry(c, s, k, v):
    o = own(c, s)
    cm.q2(c, client(c, s, k), "()")
    tagged = state(c, o) == "FoundTag"
    cm.q2(c, client(c, s, v), "()")
    if tagged: set_state(c, o, "AlreadyTagged")
    return ok(c.ret, UNIT)
def m_end(c, s):
    """a map with no entry after all is begun and ended; a tagged value has no mapping to end"""
    if state(c, s) == "CheckForTag": flush_start(c, s)
    if state(c, s) != "AlreadyTagged": ending("MappingEnd")(c, s)
    set_state(c, s, "NothingInParticular")
    return ok(c.ret, UNIT)
def field(c, s, k, v):
    """the field's name, then its value"""
    cm.q2(c, spec_call(z_str, at_unit(c), own(c, s), k), "()")
    return client(c, s, v)

def after_failure(c, res, mem_code, mem_spec, s, *a):
    """once the emitter has failed, and its error is returned, the serializer's own state is nobody's: only what was emitted counts"""
    if not (getattr(c.run, "emit_failed", False) and isinstance(res, Adt) and res.variant == "Err"): return
    for n in ("depth", "state"):
        c.run.mem = mem_spec
        v = get(c, own(c, s), n)
        c.run.mem = mem_code
        put(c, own(c, s), n, v)

def deep_enough(run, s, *a):
    """a collection is ended once, after it was begun"""
    from engine import SpecCtx
    c = SpecCtx(run, [], None)
    return [("the node was begun", get(c, own(c, s), "depth") >= 1)]

def register(R):
    C = ("C14", "C20")
    A = ("C14", "C02", "C03", "C06", "C20")
    K = "Serializer::"
    add0 = R.add
    class L:
        assume, lemma = R.assume, R.lemma
        def add(self, k, f, p, **kw): return add0(k, f, p, lax=after_failure, **kw)
    R0, R = R, L()
    R.assume(("C14", "C20"), "what a Serializer does with further values after its writer has failed is left open (its depth and pending tag on such paths are not compared)")
    add = lambda k, f, p=C, **kw: R.add(k, f, p, modular=False, **kw)
    shallow = lambda run, s, *a: run.axiom(get(sctx(run), own(sctx(run), s), "depth") < 2**63) or []
    R.assume(("C14", "C02", "C03", "C06", "C20", "C21"), "fewer than 2^63 collections are open at once; collections are ended only after they were begun (serde's protocol)")
    R.add(K + "value_start", value_start, A, pre=shallow)
    R.add(K + "value_end", value_end, A, pre=deep_enough)
    R.add(K + "take_tag", take_tag, A)
    def pending(k):
        """a mapping is begun at most once on behalf of another: the recursion ends"""
        def m(run, s):
            c = sctx(run)
            return z3.If(run.is_variant(get(c, own(c, s), "state"), "CheckForTag"), z3.IntVal(2), z3.IntVal(0)) + k
        return ("begin a mapping", m)
    R.add(K + "flush_mapping_start", flush_start, A, rank=pending(0))
    R.add(K + "emit_mapping_start", mapping_start, A, rank=pending(1))
    R.add(K + "emit_sequence_start", sequence_start, A)
    R.add(K + "emit_mapping_end", ending("MappingEnd"), A, pre=deep_enough)
    R.add(K + "emit_sequence_end", ending("SequenceEnd"), A, pre=deep_enough)
    R.add(K + "emit_scalar", emit_scalar, A, opaque=True)
    Z = "<&mut Serializer as Serializer>::serialize_"
    add(Z + "bool", z_bool, C + ("C03",))
    for t in "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128".split(): add(Z + t, z_int, C + ("C03", "C17"))
    for t in ("f32", "f64"): add(Z + t, z_float, C + ("C03", "C17"))
    add(Z + "char", z_char, C + ("C02",))
    R.add(Z + "str", z_str, C + ("C02", "C17"), cost=20)
    R.add(Z + "unit", z_unit, C + ("C03",))
    for t in ("unit_struct", "none"): add(Z + t, z_unit, C + ("C03",))
    add(Z + "bytes", z_bytes, C + ("C03",))
    add(Z + "unit_variant", lambda c, s, n, i, v: z_str(c, s, v), C + ("C02", "C06"), cost=20)
    for t in ("newtype_struct", "some"): add(Z + t, same, C)
    add(Z + "newtype_variant", z_newtype_variant, C + ("C06",))
    for t in ("seq", "tuple", "tuple_struct"): add(Z + t, selfres(sequence_start))
    add(Z + "tuple_variant", selfres(z_tuple_variant), C + ("C06",))
    add(Z + "map", selfres(z_map), C + ("C06",))
    add(Z + "struct", selfres(mapping_start))
    add(Z + "struct_variant", selfres(z_struct_variant), C + ("C06",))
    add("<&mut Serializer as Serializer>::collect_str", z_collect, C + ("C02", "C06"), cost=20)
    I = "<&mut Serializer as %s>::%s"
    for tr, m in (("SerializeSeq", "element"), ("SerializeTuple", "element"), ("SerializeTupleStruct", "field"), ("SerializeTupleVariant", "field")):
        add(I % (tr, "serialize_" + m), item)
        add(I % (tr, "end"), ending("SequenceEnd"), pre=deep_enough)
    add(I % ("SerializeMap", "serialize_key"), m_key)
    add(I % ("SerializeMap", "serialize_value"), item)
    add(I % ("SerializeMap", "serialize_entry"), m_entry, C + ("C06",))
    add(I % ("SerializeMap", "end"), m_end, C + ("C06",), pre=map_open)
    for tr in ("SerializeStruct", "SerializeStructVariant"):
        add(I % (tr, "serialize_field"), field, C + ("C02",), cost=20)
        add(I % (tr, "end"), ending("MappingEnd"), pre=deep_enough)
    laws(R0)

# ------------------------------------------------------------------ lemmas
INT_TEXT = "itoa writes the decimal digits of an integer, with - for a negative one and no redundant zeros"
RYU_TEXT = "ryu writes -?digits(.digits)?(e-?digits)? with a . or an e in it, which std's parse::<f64> reads back as the same float (for an f32: as a float that rounds back to it)"
RYU = cat(optr("-"), alt(cat(cs.DEC, ".", plus(DIGIT), optr(cat("e", optr("-"), plus(DIGIT)))), cat(cs.DEC, "e", optr("-"), plus(DIGIT))))
def laws(R):
    R.assume(("C03", "C04", "C17"), INT_TEXT)
    R.assume(("C03", "C04", "C17"), RYU_TEXT)
    def int_text_of(c, v, name):
        """a text with what is known of the decimal text of v"""
        t = c.const(name, "&str")
        if c.branch(v >= 0):
            c.assume(z3.And(inre(t, cs.DEC), lib.nat(c.run, 10, t) == v))
        else:
            u = cs.drop(t, 1)
            c.assume(z3.And(z3.PrefixOf(S("-"), t), inre(t, cat("-", cs.DEC)), lib.nat(c.run, 10, u) == -v))
        return t
    def ints(ty):
        def f(c):
            v = c.const("v", ty)
            t = int_text_of(c, v, "t")
            k, x = cs.plain_row(c, t)
            want = "u64 u128" if ty[0] == "u" else "u64 u128 i64 i128"
            c.oblige("reads as an integer", z3.BoolVal(k in want.split()))
            if k in ("u64", "u128", "i64", "i128"):
                c.oblige("of the same value", x == v)
                c.oblige("of the narrowest kind", z3.BoolVal(k[1:] == "64") == z3.And(v >= I64[0], v <= U64[1]))
            for u in ("u64", "u128", "i64", "i128"):
                lo, hi = INTTY[u]
                c.ret = "std::option::Option<%s>" % u
                r = (cs.parse_unsigned_int if u[0] == "u" else cs.parse_signed_int)(c, t, cs.radix_fn(u))
                fits = z3.And(v >= lo, v <= hi)
                c.oblige("asked for as %s, it is there when it fits" % u, z3.BoolVal(r.variant == "Some") == fits)
                if r.variant == "Some": c.oblige("with the same value as " + u, r.fields[0] == v)
        return f
    for ty in ("i128", "u128"):
        R.lemma("text of an integer reads back as it (%s)" % ty, ("C03", "C04", "C17"), ints(ty), cost=20)
    def num_ints(c):
        n = c.const("n", "number::Number")
        c.assume(num_inv(c.run, n))
        k, x = num(c, n)
        c.ret = RESULT % "number::Number"
        if k == "Float":
            t = float_text_of(c, x)
            c.oblige("reads back as an equal Number", cn.neq(c, ok_of(c, cn.from_str(c, t)), n))
        else:
            r = ok_of(c, cn.from_str(c, int_text_of(c, x, "t")))
            c.oblige("reads back as an equal Number", cn.neq(c, r, n))
            c.oblige("of the same kind", z3.BoolVal(num(c, r)[0] == k))
    def ok_of(c, r):
        c.oblige("is a Number", z3.BoolVal(r.variant == "Ok"))
        return c.field(r, "Ok", 0, "number::Number")
    R.lemma("printing a Number and parsing the text gives it back", ("C04", "C03"), num_ints, cost=20)
    def float_text_of(c, x):
        if c.branch(z3.fpIsNaN(x)): return S(".nan")
        if c.branch(z3.fpIsInf(x)): return S("-.inf") if c.branch(z3.fpIsNegative(x)) else S(".inf")
        t = c.const("ft", "&str")
        c.assume(inre(t, RYU))
        r = cs.rust_f64(c, t)
        c.assume(c.run.is_variant(r, "Ok"))
        c.assume(z3.fpToIEEEBV(c.field(r, "Ok", 0, "f64")) == z3.fpToIEEEBV(x))
        return t
    def floats(c):
        x = c.const("x", "f64")
        t = float_text_of(c, x)
        k, y = cs.plain_row(c, t)
        c.oblige("reads as a float", z3.BoolVal(k == "f64"))
        if k == "f64":
            c.oblige("the same one, bit for bit, or NaN for NaN", z3.Or(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)), x == y))
        c.ret = "std::option::Option<f64>"
        r = cs.parse_f64(c, t)
        c.oblige("asked for as a float, it is there", z3.BoolVal(r.variant == "Some"))
    R.lemma("text of a float reads back as it", ("C03", "C17"), floats, cost=20)
    def consts(c):
        for t, k, v in (("true", "bool", True), ("false", "bool", False), ("null", "unit", None)):
            kk, x = cs.plain_row(c, S(t))
            c.oblige("%s reads as %s" % (t, k), z3.BoolVal(kk == k) if v is None else z3.And(z3.BoolVal(kk == k), x == z3.BoolVal(v)))
    R.lemma("true, false and null read back as themselves", ("C03", "C17"), consts)
    def strings(c):
        t = c.const("t", "&str")
        st = str_style(c, t)
        if st == "Any":
            k, x = cs.plain_row(c, t)
            c.oblige("what may be written plain means the string itself", z3.BoolVal(k == "str"))
            c.oblige("and does not look like a number", z3.Not(inre(t, cs.ZEROPADDED)))
            c.oblige("and is on one line", z3.Not(z3.Contains(t, S("\n"))))
            c.oblige("and is not empty", t != S(""))
        else:
            c.oblige("quoted or literal", z3.BoolVal(st in ("SingleQuoted", "Literal")))
    R.lemma("a string that may be written plain means a string", ("C02", "C17"), strings, cost=20)
    R.assume(("C02", "C03", "C14", "C17"), "libyaml: an event stream it accepts is written as text that parses back to the same events, a scalar of style Any being written plain only if it is the same scalar when read plain")
    protocol(R)

def protocol(R):
    """every value, however deep, is one node: by induction over the value, its parts being one node each"""
    def start(c, st):
        c.run.ghost = []
        tag = c.const("tag", STRING)
        s = mkstruct(c, SER, depth=c.const("depth", "usize"), state=Adt(STATE, st, [tag] if st == "FoundTag" else []), emitter=c.const("em", EM), writer=c.const("w", "std::marker::PhantomData<W>"))
        r = Ref(c.alloc(s), (), "mut", SER)
        d = get(c, r, "depth")
        c.assume(d < 2**62)
        bang = z3.If(z3.PrefixOf(S("!"), tag), tag, z3.Concat(S("!"), tag)) if st == "FoundTag" else S("")
        return r, d, bang
    def part(name):
        """a client's value inside a collection: one node, the depth as before, no tag left over (the induction hypothesis)"""
        def f(c, s):
            k = state(c, s)
            t = S("")
            if k == "CheckForTag": flush_start(c, s)
            if k == "FoundTag": t = take_tag(c, s).fields[0]
            if k == "CheckForDuplicateTag": set_state(c, s, "NothingInParticular")
            c.run.ghost.append((name, t))
            return ok(UR, UNIT)
        return f
    def tag_key(tag):
        def f(c, s):
            """the one key of a map, displayed as a tag"""
            k = state(c, s)
            if k == "CheckForDuplicateTag": raise Return(err(UR, new_error(c, "SerializeNestedEnum")))
            set_state(c, s, "FoundTag", tag)
            return ok(UR, UNIT)
        return f
    STATES = ["NothingInParticular", "FoundTag", "CheckForTag", "CheckForDuplicateTag"]
    def node(calls, expect, refused=()):
        """run the calls from every state; what the emitter gets is one node, with the pending tag, inside what was pending"""
        def f(c):
            for st in STATES:
                s, d, bang = start(c, st)
                c.ret = UR
                top = c.branch(d == 0)
                want = ([("DocumentStart", None)] if top else [])
                if st == "CheckForTag":
                    want = want + [("MappingStart", S(""))]
                inner_top = top and st != "CheckForTag"
                try:
                    for call in calls:
                        r = call(c, s)
                        if isinstance(r, Adt) and r.variant == "Err": raise Return(r)
                except Return as e:
                    c.oblige("%s: refused only for two tags on a node" % st, z3.BoolVal(st in refused))
                    continue
                c.oblige("%s: not refused" % st, z3.BoolVal(st not in refused))
                body = expect(bang)
                want = want + body + ([("DocumentEnd", None)] if inner_top else [])
                got = c.run.ghost
                c.oblige("%s: the events in order" % st, z3.BoolVal([g for g, _ in got] == [w for w, _ in want]))
                for (g, a), (w, b) in zip(got, want):
                    if a is not None and b is not None: c.oblige("%s: tag of %s" % (st, g), a == b)
                c.oblige("%s: the depth is as before (one more if the pending map was begun)" % st, get(c, s, "depth") == d + (1 if st == "CheckForTag" else 0))
                c.oblige("%s: nothing is pending" % st, z3.BoolVal(state(c, s) == "NothingInParticular"))
            c.run.ghost = None
        return f
    C = ("C14", "C06")
    a, b, k1, v1 = (part(n) for n in ("a", "b", "key", "value"))
    L = lambda name, calls, expect, refused=(): R.lemma("one node: " + name, C, node(calls, expect, refused))
    L("scalar", [lambda c, s: put_scalar(c, s, S("x"), "Plain")], lambda t: [("Scalar", t)])
    seq = lambda t: [("SequenceStart", t), ("a", S("")), ("b", S("")), ("SequenceEnd", None)]
    mp = lambda t: [("MappingStart", t), ("key", S("")), ("value", S("")), ("MappingEnd", None)]
    end_s, end_m = ending("SequenceEnd"), ending("MappingEnd")
    L("sequence, tuple", [sequence_start, lambda c, s: item(c, s, a), lambda c, s: item(c, s, b), end_s], seq)
    L("struct", [mapping_start, lambda c, s: field(c, s, S("k"), v1), end_m], lambda t: [("MappingStart", t), ("Scalar", S("")), ("value", S("")), ("MappingEnd", None)])
    vname = S("Variant")
    own_tag = lambda f: lambda t: f(S("!Variant"))
    L("tuple variant", [lambda c, s: z_tuple_variant(c, s, S("E"), 0, vname, 2), lambda c, s: item(c, s, a), lambda c, s: item(c, s, b), end_s], own_tag(seq), ("FoundTag",))
    L("struct variant", [lambda c, s: z_struct_variant(c, s, S("E"), 0, vname, 1), lambda c, s: field(c, s, S("k"), v1), end_m],
      own_tag(lambda t: [("MappingStart", t), ("Scalar", S("")), ("value", S("")), ("MappingEnd", None)]), ("FoundTag",))
    L("newtype variant", [lambda c, s: (tag_next(c, s, vname), client(c, s, node_part))[1]], own_tag(lambda t: [("Scalar", t)]), ("FoundTag",))
    n = lambda c, x: some("std::option::Option<usize>", z3.IntVal(x))
    L("map of two entries", [lambda c, s: z_map(c, s, n(c, 2)), lambda c, s: m_entry(c, s, k1, v1), lambda c, s: m_entry(c, s, k1, v1), m_end],
      lambda t: [("MappingStart", t), ("key", S("")), ("value", S("")), ("key", S("")), ("value", S("")), ("MappingEnd", None)])
    L("map of unknown length", [lambda c, s: z_map(c, s, none("std::option::Option<usize>")), m_end], lambda t: [("MappingStart", t), ("MappingEnd", None)])
    L("map of one entry", [lambda c, s: z_map(c, s, n(c, 1)), lambda c, s: m_entry(c, s, k1, v1), m_end], mp)
    L("map of one entry, key and value apart", [lambda c, s: z_map(c, s, n(c, 1)), lambda c, s: m_key(c, s, k1), lambda c, s: item(c, s, v1), m_end], mp)
    L("map announced with one entry and given none", [lambda c, s: z_map(c, s, n(c, 1)), m_end], lambda t: [("MappingStart", t), ("MappingEnd", None)])
    L("tagged value", [lambda c, s: z_map(c, s, n(c, 1)), lambda c, s: m_entry(c, s, tag_key(S("!Variant")), node_part), m_end], own_tag(lambda t: [("Scalar", t)]), ("FoundTag",))

def node_part(c, s):
    """a client's value that is a scalar"""
    return put_scalar(c, s, S("x"), "Plain")

def sctx(run):
    from engine import SpecCtx
    return SpecCtx(run, [], None)
def map_open(run, s, *a):
    c = sctx(run)
    o = own(c, s)
    st = get(c, o, "state")
    run.axiom(get(c, o, "depth") < 2**63)
    return [("the mapping was begun", z3.Or(run.is_variant(st, "CheckForTag"), run.is_variant(st, "AlreadyTagged"), get(c, o, "depth") >= 1))]
