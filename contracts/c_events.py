"""de.rs: reading the events of one document (C10, C11, C12, C13, C16, C18, C21; the scalar rows of C01)"""
from contracts.dsl import *
from contracts import c_scalar as cs
import vc

DFE, DOC, EV, MARK, PATH = "de::DeserializerFromEvents", "loader::Document", "de::Event", "libyaml::error::Mark", "path::Path"
SEQA, MAPA, ENUMA, UNITA, CUR = "de::SeqAccess", "de::MapAccess", "de::EnumAccess", "de::UnitVariantAccess", "de::CurrentEnum"
PAIR = "(de::Event, libyaml::error::Mark)"
CE = "std::option::Option<de::CurrentEnum>"
SCALAR = "libyaml::parser::Scalar"
OTAG = "std::option::Option<libyaml::tag::Tag>"
OREPR = "std::option::Option<&[u8]>"

STRUCTS[DFE] = ("src/de.rs", [("document", "&" + DOC, "const"), ("pos", "&mut usize", "deref"), ("jumpcount", "&mut usize", "deref"),
                              ("path", PATH, "const"), ("remaining_depth", "u8", "const"), ("current_enum", CE, "mut")])
STRUCTS[SEQA] = ("src/de.rs", [("empty", "bool", "const"), ("de", "&mut " + DFE, "deref"), ("len", "usize", "mut")])
STRUCTS[MAPA] = ("src/de.rs", [("empty", "bool", "const"), ("de", "&mut " + DFE, "deref"), ("len", "usize", "mut"), ("key", "std::option::Option<&[u8]>", "mut")])
STRUCTS[ENUMA] = ("src/de.rs", [("de", "&mut " + DFE, "deref"), ("name", "std::option::Option<&str>", "const"), ("tag", "&str", "const")])
STRUCTS[UNITA] = ("src/de.rs", [("de", "&mut " + DFE, "deref")])
STRUCTS[DOC] = ("src/loader.rs", [("events", "std::vec::Vec<%s>" % PAIR, "mut"), ("error", "std::option::Option<std::sync::Arc<error::ErrorImpl>>", "mut"),
                                  ("aliases", "std::collections::BTreeMap<usize, usize>", "mut")])
STRUCTS[SCALAR] = ("src/libyaml/parser.rs", [("anchor", "std::option::Option<libyaml::parser::Anchor>", "mut"), ("tag", OTAG, "mut"), ("value", "std::boxed::Box<[u8]>", "mut"),
                                             ("style", "libyaml::parser::ScalarStyle", "mut"), ("repr", OREPR, "mut")])
STRUCTS["libyaml::parser::SequenceStart"] = STRUCTS["libyaml::parser::MappingStart"] = ("src/libyaml/parser.rs", [("anchor", "std::option::Option<libyaml::parser::Anchor>", "mut"), ("tag", OTAG, "mut")])
STRUCTS[CUR] = ("src/de.rs", [("name", "std::option::Option<&str>", "const"), ("tag", "&str", "const")])

MAXEV = 2**57           # (Event, Mark) has at least 64 bytes, a Vec at most isize::MAX

# ------------------------------------------------------------------ invariants
def doc_of(run, d):
    return run.load(run.field(d, None, run.fidx(DFE, "document"), "&" + DOC).cell)

def events_of(run, doc):
    return run.field(doc, None, run.fidx(DOC, "events"), sty(DOC, "events"))

def n_events(run, d):
    n = vec_len(run, events_of(run, doc_of(run, d)))
    run.axiom(n <= MAXEV)
    return n

def cur(run, d, name):
    r = run.field(d, None, run.fidx(DFE, name), "&mut usize")
    return run.load(r.cell, r.path)

def alias_target(run, doc, i):
    """(is known, index of the anchored event) of an alias id"""
    m = run.term(run.field(doc, None, run.fidx(DOC, "aliases"), sty(DOC, "aliases")))
    return lib.map_lookup_pair(run, m, i)

def dfe_inv(run, d, old=None):
    """the position is inside the document (every method keeps it there); the 2^64th jump is never taken"""
    n = n_events(run, d)
    return [cur(run, d, "pos") <= n, cur(run, d, "jumpcount") < 2**64 - 1]
STRUCT_INV[DFE] = dfe_inv

def know_event(run, doc, i):
    """an alias event's id is in the table and stands for an earlier event (next_document's contract; documents do not change)"""
    if z3.is_expr(i): i = z3.simplify(i)
    ev = run.field(run.elem(events_of(run, doc), i, PAIR), None, 0, EV)
    if isinstance(ev, Sym):
        has, tgt = alias_target(run, doc, run.field(ev, "Alias", 0, "usize"))
        run.axiom(z3.Implies(z3.And(i < vec_len(run, events_of(run, doc)), run.is_variant(ev, "Alias")), z3.And(has, tgt >= 0, tgt < i)))

def owner(run, s):
    """the reader behind a reader or an access object"""
    d = deep(run, s)
    if strip_ty_generics(d.ty) != DFE:
        d = deep(run, run.field(d, None, run.fidx(d.ty, "de"), "&mut " + DFE))
    return d

def pre_dfe(run, s, *rest):
    d = owner(run, s)
    run.axiom(cur(run, d, "jumpcount") < 2**64 - 1)
    a = deep(run, s)
    if strip_ty_generics(a.ty) in (SEQA, MAPA):
        run.axiom(run.field(a, None, run.fidx(a.ty, "len"), "usize") < 2**64 - 1)
    return [("the position is inside the document", cur(run, d, "pos") <= n_events(run, d))]

def keeps_pos(run, args, res, init):
    d = owner(run, args[0])
    return [("the position stays inside the document", cur(run, d, "pos") <= n_events(run, d))]

# ------------------------------------------------------------------ specification
def peek(c, s):
    """the event at the position with its mark, or the document's error, or end of stream"""
    run = c.run
    d = c.load(s.cell, s.path)
    doc = get(c, s, "document")
    p = cur(run, d, "pos")
    if c.branch(p < n_events(run, d)):
        know_event(run, deep(run, doc), p)
        e = Ref(doc.cell, doc.path + ((None, c.run.fidx(DOC, "events"), sty(DOC, "events")), ("#", simp_idx(p), PAIR)), "shared", PAIR)
        return ok(c.ret, (Ref(e.cell, e.path + ((None, 0, EV),), "shared", EV), c.load(e.cell, e.path + ((None, 1, MARK),))))
    er = get(c, doc, "error")
    if c.case(er) == "Some":
        return err(c.ret, new_error(c, "Shared", c.field(er, "Some", 0, "std::sync::Arc<error::ErrorImpl>")))
    return err(c.ret, new_error(c, "EndOfStream"))

def advance(c, s, by=1, forget=True):
    r = get(c, s, "pos")
    c.store(r.cell, r.path, c.load(r.cell, r.path) + by)
    if forget:
        put(c, s, "current_enum", none(CE))

def peek_event_mark(c, s):
    r = peek(c, s)
    return ok(c.ret, Adt(ty_args(c.ret)[0], None, list(r.fields[0]))) if r.variant == "Ok" else r

def peek_event(c, s):
    r = peek(c, s)
    return ok(c.ret, r.fields[0][0]) if r.variant == "Ok" else r

def next_event_mark(c, s):
    """the event at the position; the position moves past it, and a pending enum tag is used up"""
    r = peek_event_mark(c, s)
    if r.variant == "Ok": advance(c, s)
    return r

def next_event(c, s):
    r = peek_event(c, s)
    if r.variant == "Ok": advance(c, s)
    return r

def take_next(c, s):
    """(event ref, mark) of the next event, or return the error"""
    r = peek(c, s)
    if r.variant == "Err": raise Return(r)
    advance(c, s)
    return r.fields[0]

def jump(c, s, pos):
    """an alias continues at the anchored event, one level of jumps counted, at most 100 per event"""
    j = get(c, s, "jumpcount")
    n = c.load(j.cell, j.path) + 1
    c.run.axiom(n < 2**64)
    c.store(j.cell, j.path, n)
    if c.branch(n > 100 * n_events(c.run, c.load(s.cell, s.path))):
        return err(c.ret, new_error(c, "RepetitionLimitExceeded"))
    has, tgt = alias_target(c.run, deep(c.run, get(c, s, "document")), c.load(pos.cell, pos.path))
    if not c.branch(has): c.panic("unresolved alias")
    c.store(pos.cell, pos.path, tgt)
    know_event(c.run, deep(c.run, get(c, s, "document")), tgt)
    return ok(c.ret, mkstruct(c, DFE, document=get(c, s, "document"), pos=pos, jumpcount=j, remaining_depth=get(c, s, "remaining_depth"), current_enum=none(CE),
                              path=Adt(PATH, "Alias", [at(c, s, "path")])))

def follow(c, s, id, method, *rest):
    """jump to an alias and do the same there"""
    p = c.mkref(id, "mut", "usize")
    ret, c.ret = c.ret, RESULT % DFE
    r = jump(c, s, p)
    c.ret = ret
    if r.variant == "Err": raise Return(err(ret, r.fields[0]))
    return callf(c, "<&mut DeserializerFromEvents as Deserializer>::" + method, [c.mkref(r.fields[0], "mut", DFE)] + list(rest), ret)

def recursion_check(c, s, mark, f):
    """one level deeper for the duration of f; no deeper than the limit"""
    d = get(c, s, "remaining_depth")
    if c.branch(d == 0):
        return err(c.ret, new_error(c, "RecursionLimitExceeded", mark))
    put(c, s, "remaining_depth", d - 1)
    r = callv(c, f, [s], ["&mut " + DFE], c.ret)
    put(c, s, "remaining_depth", d)
    return r

def at_mark(c, r, mark, path):
    """an error that has no position yet gets this one"""
    if c.case(r) == "Ok": return r
    return err(c.ret, callf(c, "error::fix_mark", [c.field(r, "Err", 0, ERR), mark, path], ERR))

def serde_err(c, kind, x, exp):
    return message(c, lib.serde_message(c.run, kind, x, exp))

def message(c, text):
    return new_error(c, "Message", text, none("std::option::Option<error::Pos>"))

def unexpected(v, *f):
    return Adt("serde::de::Unexpected", v, list(f))

def scalar(c, ev, name):
    sc = Ref(ev.cell, ev.path + (("Scalar", 0, SCALAR),), "shared", SCALAR)
    return get(c, sc, name)

def text(c, ev):
    """the scalar's text, or None when it is not UTF-8; forks"""
    b = strof(c.run, scalar(c, ev, "value"))
    return b if c.branch(c.run.app("valid_utf8", [b], BOOL)) else None

def tag_text(c, tag):
    """the tag's bytes, or None"""
    if c.case(tag) == "None": return None
    return strof(c.run, c.field(c.field(tag, "Some", 0, "libyaml::tag::Tag"), None, 0, "std::boxed::Box<[u8]>"))

def has_enum(c, s):
    return c.is_variant(get(c, s, "current_enum"), "Some")

TAGS = dict(BOOL="tag:yaml.org,2002:bool", INT="tag:yaml.org,2002:int", FLOAT="tag:yaml.org,2002:float", NULL="tag:yaml.org,2002:null")

def plain_or_tagged(c, ev, tag, already):
    """a plain scalar, or a literal block scalar carrying exactly the core-schema tag of the type"""
    k = c.case(scalar(c, ev, "style"))
    if k == "Plain": return True
    if k != "Literal" or c.branch(already): return False
    t = tag_text(c, scalar(c, ev, "tag"))
    return t is not None and c.branch(t == S(tag))

def is_plain_or_tagged(c, expected, sc, already):
    k = c.case(get(c, sc, "style"))
    if k == "Plain": return z3.BoolVal(True)
    if k != "Literal" or c.branch(already): return z3.BoolVal(False)
    t = tag_text(c, get(c, sc, "tag"))
    return z3.BoolVal(False) if t is None else t == strof(c.run, expected)

def not_this(c, ev, visitor):
    return err(c.ret, callf(c, "de::invalid_type", [ev, c.mkref(visitor, "shared", "V")], ERR))

def typed_scalar(method, tag, parse, vis, ty):
    """bool, integers, floats: only the scalars of that row"""
    def f(c, s, visitor):
        already = has_enum(c, s)
        ev, mark = take_next(c, s)
        k = c.case(c.load(ev.cell, ev.path))
        def body():
            if k == "Alias":
                return follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), method, visitor)
            if k == "Scalar" and plain_or_tagged(c, ev, tag, already):
                t = text(c, ev)
                if t is not None:
                    ret, c.ret = c.ret, "std::option::Option<%s>" % ty
                    r = parse(c, t)
                    c.ret = ret
                    if r.variant == "Some":
                        return visit(c, vis, visitor, r.fields[0])
            return not_this(c, ev, visitor)
        return at_mark(c, body(), mark, get(c, s, "path"))
    return f

def deserialize_str(c, s, visitor):
    """any scalar, as its text"""
    ev, mark = take_next(c, s)
    k = c.case(c.load(ev.cell, ev.path))
    if k == "Alias":
        r = follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), "deserialize_str", visitor)
    elif k == "Scalar":
        t = text(c, ev)
        r = not_this(c, ev, visitor) if t is None else cs.visit_text(c, visitor, t, scalar(c, ev, "repr"), scalar(c, ev, "style"))
    else:
        r = not_this(c, ev, visitor)
    return at_mark(c, r, mark, get(c, s, "path"))

def bytes_unsupported(c, s, visitor):
    return err(c.ret, new_error(c, "BytesUnsupported"))

def null_text(b):
    return z3.Or(b == S(""), cs.inset(b, cs.NULLS))

def expected_null(c, ev):
    t = text(c, ev)
    u = unexpected("Str", t) if t is not None else unexpected("Bytes", strof(c.run, scalar(c, ev, "value")))
    return serde_err(c, "invalid_value", u, c.mkref(S("null")))

def deserialize_unit(c, s, visitor):
    """plain null or empty; under !!null only a spelled null; the empty document"""
    already = has_enum(c, s)
    ev, mark = take_next(c, s)
    k = c.case(c.load(ev.cell, ev.path))
    if k == "Alias":
        r = follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), "deserialize_unit", visitor)
    elif k == "Void":
        r = visit(c, "unit", visitor)
    elif k == "Scalar":
        b = strof(c.run, scalar(c, ev, "value"))
        if c.case(scalar(c, ev, "style")) != "Plain":
            isnull = False
        else:
            t = tag_text(c, scalar(c, ev, "tag"))
            if t is not None and not c.branch(already):
                isnull = c.branch(t == S(TAGS["NULL"])) and c.branch(cs.inset(b, cs.NULLS))
            else:
                isnull = c.branch(null_text(b))
        r = visit(c, "unit", visitor) if isnull else err(c.ret, expected_null(c, ev))
    else:
        r = not_this(c, ev, visitor)
    return at_mark(c, r, mark, get(c, s, "path"))

def deserialize_option(c, s, visitor):
    """null as None, everything else as Some of it; an alias as what it stands for"""
    r = peek(c, s)
    if r.variant == "Err": return r
    ev, mark = r.fields[0]
    k = c.case(c.load(ev.cell, ev.path))
    if k == "Alias":
        advance(c, s, forget=False)
        return follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), "deserialize_option", visitor)
    if k in ("SequenceEnd", "MappingEnd"): c.panic("unexpected end")
    if k == "Void": is_some = False
    elif k == "Scalar":
        b = strof(c.run, scalar(c, ev, "value"))
        if c.case(scalar(c, ev, "style")) != "Plain": is_some = True
        else:
            t = tag_text(c, scalar(c, ev, "tag"))
            if t is not None and not c.branch(has_enum(c, s)):
                if not c.branch(t == S(TAGS["NULL"])): is_some = True
                elif c.branch(cs.inset(b, cs.NULLS)): is_some = False
                else: return err(c.ret, expected_null(c, ev))
            else:
                is_some = not c.branch(null_text(b))
    else: is_some = True
    if is_some: return visit(c, "some", visitor, s)
    advance(c, s)
    return visit(c, "none", visitor)

def collection(kind):
    start, access, method, vis, visitfn = dict(seq=("SequenceStart", SEQA, "deserialize_seq", "seq", "DeserializerFromEvents::visit_sequence"),
                                               map=("MappingStart", MAPA, "deserialize_map", "map", "DeserializerFromEvents::visit_mapping"))[kind]
    def f(c, s, visitor):
        """the collection, an alias of one, or nothing at all (an empty one)"""
        ev, mark = take_next(c, s)
        k = c.case(c.load(ev.cell, ev.path))
        if k == "Alias":
            r = follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), method, visitor)
        elif k == start:
            r = callf(c, visitfn, [s, visitor, mark], c.ret)
        elif k == "Void" or k == "Scalar" and c.branch(strof(c.run, scalar(c, ev, "value")) == S("")) and c.case(scalar(c, ev, "style")) == "Plain":
            f = dict(empty=z3.BoolVal(True), de=s, len=z3.IntVal(0))
            if kind == "map": f["key"] = none("std::option::Option<&[u8]>")
            r = visit(c, vis, visitor, mkstruct(c, access, **f))
        else:
            r = not_this(c, ev, visitor)
        return at_mark(c, r, mark, get(c, s, "path"))
    return f

def visit_collection(kind):
    access, end = dict(seq=(SEQA, "DeserializerFromEvents::end_sequence"), map=(MAPA, "DeserializerFromEvents::end_mapping"))[kind]
    def f(c, s, visitor, mark):
        """one level deeper, the visitor gets the elements from the first on; then the rest must be none"""
        vt = ty_args(c.ret)[0]
        def inside(d):
            x = dict(empty=z3.BoolVal(False), de=d, len=z3.IntVal(0))
            if kind == "map": x["key"] = none("std::option::Option<&[u8]>")
            a = c.mkref(mkstruct(c, access, **x), "mut", access)
            r = visit(c, kind, visitor, a)
            if c.case(r) == "Err": return err(RESULT % "(V, usize)", c.field(r, "Err", 0, ERR))
            return ok(RESULT % "(V, usize)", (c.field(r, "Ok", 0, vt), get(c, a, "len")))
        r = recursion_check(c, s, mark, inside)
        if r.variant == "Err": return err(c.ret, r.fields[0])
        v, n = r.fields[0]
        e = callf(c, end, [s, n], RESULT % "()")
        if c.case(e) == "Err": return err(c.ret, c.field(e, "Err", 0, ERR))
        return ok(c.ret, v)
    return f

def child(c, d, path):
    """a reader of one child node: shares the position and counters"""
    return mkstruct(c, DFE, document=get(c, d, "document"), pos=get(c, d, "pos"), jumpcount=get(c, d, "jumpcount"), path=path,
                    remaining_depth=get(c, d, "remaining_depth"), current_enum=none(CE))

def seed(c, sd, de, ret):
    return uninterp(c.run, "DeserializeSeed::deserialize", [sd, de], ret)

def some_of(c, r):
    if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
    t = ty_args(r.ty)[0]
    return ok(c.ret, some(ty_args(c.ret)[0], c.field(r, "Ok", 0, t)))

def next_element_seed(c, s, sd):
    """the next element at path [index], until the end of the sequence"""
    if c.branch(get(c, s, "empty")): return ok(c.ret, none(ty_args(c.ret)[0]))
    d = get(c, s, "de")
    r = peek(c, d)
    if r.variant == "Err": return r
    ev, _ = r.fields[0]
    if c.case(c.load(ev.cell, ev.path)) in ("SequenceEnd", "Void"): return ok(c.ret, none(ty_args(c.ret)[0]))
    n = get(c, s, "len")
    e = child(c, d, Adt(PATH, "Seq", [at(c, d, "path"), n]))
    put(c, s, "len", n + 1)
    return some_of(c, seed(c, sd, c.mkref(e, "mut", DFE), RESULT % ty_args(ty_args(c.ret)[0])[0]))

KEY = "std::option::Option<&[u8]>"
def next_key_seed(c, s, sd):
    """the next key, read in place; a scalar key names the path of its value"""
    if c.branch(get(c, s, "empty")): return ok(c.ret, none(ty_args(c.ret)[0]))
    d = get(c, s, "de")
    r = peek(c, d)
    if r.variant == "Err": return r
    ev, _ = r.fields[0]
    k = c.case(c.load(ev.cell, ev.path))
    if k in ("MappingEnd", "Void"): return ok(c.ret, none(ty_args(c.ret)[0]))
    put(c, s, "len", get(c, s, "len") + 1)
    put(c, s, "key", some(KEY, strof(c.run, scalar(c, ev, "value"))) if k == "Scalar" else none(KEY))
    return some_of(c, seed(c, sd, d, RESULT % ty_args(ty_args(c.ret)[0])[0]))

def next_value_seed(c, s, sd):
    """the value that follows the key, at path .key (or ? when the key is no text)"""
    d = get(c, s, "de")
    k = get(c, s, "key")
    p = None
    if c.case(k) == "Some":
        b = strof(c.run, c.field(k, "Some", 0, "&[u8]"))
        if c.branch(c.run.app("valid_utf8", [b], BOOL)):
            p = Adt(PATH, "Map", [at(c, d, "path"), b])
    return seed(c, sd, c.mkref(child(c, d, p or Adt(PATH, "Unknown", [at(c, d, "path")])), "mut", DFE), c.ret)

# ------------------------------------------------------------------ enums
def enum_variant_seed(c, a, sd):
    """the tag names the variant; its payload is the same node, read with that tag used up"""
    d = get(c, c.mkref(a, "mut", ENUMA), "de")
    tag = strof(c.run, c.field(a, None, c.run.fidx(ENUMA, "tag"), "&str"))
    name = c.field(a, None, c.run.fidx(ENUMA, "name"), "std::option::Option<&str>")
    r = seed(c, sd, uninterp(c.run, "StrDeserializer::new", [tag], "serde::de::value::StrDeserializer<error::Error>"), RESULT % tuple_tys(ty_args(c.ret)[0])[0])
    if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
    v = mkstruct(c, DFE, document=get(c, d, "document"), pos=get(c, d, "pos"), jumpcount=get(c, d, "jumpcount"), path=get(c, d, "path"),
                 remaining_depth=get(c, d, "remaining_depth"), current_enum=some(CE, mkstruct(c, CUR, name=name, tag=tag)))
    return ok(c.ret, Adt(ty_args(c.ret)[0], None, [c.field(r, "Ok", 0, "V"), v]))

def parse_tag_of(c, tag):
    """a local tag !name gives name (! alone stays), any other tag nothing"""
    t = tag_text(c, tag)
    if t is None or not c.branch(z3.PrefixOf(S("!"), t)): return None
    n = S("!") if c.branch(t == S("!")) else cs.drop(t, 1)
    return n if c.branch(c.run.app("valid_utf8", [n], BOOL)) else None

def parse_tag(c, tag):
    t = parse_tag_of(c, deep(c.run, tag))
    return none(c.ret) if t is None else some(c.ret, t)

def visit_enum(c, s, visitor, name, tag):
    return visit(c, "enum", visitor, mkstruct(c, ENUMA, de=s, name=name, tag=tag))

def node_tag(c, ev, k):
    if k == "Scalar": return scalar(c, ev, "tag")
    ty = "libyaml::parser::" + k
    return get(c, Ref(ev.cell, ev.path + ((k, 0, ty),), "shared", ty), "tag")

def deserialize_any(c, s, visitor):
    """the node as what it is: a tagged node as an enum (unless the tag was just used), a scalar by the grammar, a collection, nothing"""
    already = has_enum(c, s)
    ev, mark = take_next(c, s)
    k = c.case(c.load(ev.cell, ev.path))
    def body():
        if k == "Alias":
            return follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), "deserialize_any", visitor)
        if k in ("SequenceEnd", "MappingEnd"): c.panic("unexpected end")
        if k == "Void": return visit(c, "none", visitor)
        if not c.branch(already):
            t = parse_tag_of(c, node_tag(c, ev, k))
            if t is not None:
                advance(c, s, -1, forget=False)
                return visit_enum(c, s, visitor, none("std::option::Option<&str>"), t)
        if k == "Scalar":
            return callf(c, "de::visit_scalar", [visitor, Ref(ev.cell, ev.path + (("Scalar", 0, SCALAR),), "shared", SCALAR), already], c.ret)
        return callf(c, "DeserializerFromEvents::visit_" + ("sequence" if k == "SequenceStart" else "mapping"), [s, visitor, mark], c.ret)
    return at_mark(c, body(), mark, get(c, s, "path"))

def visit_scalar(c, visitor, sc, already):
    """a core-schema tag forces that row (or an error), a local tag or none leaves a plain scalar to the grammar, anything else is a string"""
    b = strof(c.run, get(c, sc, "value"))
    if not c.branch(c.run.app("valid_utf8", [b], BOOL)):
        return err(c.ret, serde_err(c, "invalid_type", unexpected("Bytes", b), c.mkref(visitor, "shared", "V")))
    def bad(what): return err(c.ret, serde_err(c, "invalid_value", unexpected("Str", b), c.mkref(S(what))))
    def parsed(p, ty):
        ret, c.ret = c.ret, "std::option::Option<%s>" % ty
        r = p(c, b); c.ret = ret
        return r
    plain = c.is_variant(get(c, sc, "style"), "Plain")
    t = tag_text(c, get(c, sc, "tag"))
    if t is not None and not c.branch(already):
        if c.branch(t == S(TAGS["BOOL"])):
            r = parsed(cs.parse_bool, "bool")
            return visit(c, "bool", visitor, r.fields[0]) if r.variant == "Some" else bad("a boolean")
        if c.branch(t == S(TAGS["INT"])):
            r = cs.int_row(c, b)
            return bad("an integer") if r is None else visit(c, r[0], visitor, r[1])
        if c.branch(t == S(TAGS["FLOAT"])):
            r = parsed(cs.parse_f64, "f64")
            return visit(c, "f64", visitor, r.fields[0]) if r.variant == "Some" else bad("a float")
        if c.branch(t == S(TAGS["NULL"])):
            return visit(c, "unit", visitor) if c.branch(cs.inset(b, cs.NULLS)) else bad("null")
        grammar = c.branch(z3.PrefixOf(S("!"), t)) and c.branch(plain)
    else:
        grammar = c.branch(plain)
    if grammar:
        return cs.visit_untagged_scalar(c, visitor, b, get(c, sc, "repr"), get(c, sc, "style"))
    return cs.visit_text(c, visitor, b, get(c, sc, "repr"), get(c, sc, "style"))

def deserialize_enum(c, s, name, variants, visitor):
    """a node with a local tag: the variant of that name; an untagged scalar: a unit variant; anything else is an error"""
    r = peek(c, s)
    if r.variant == "Err": return r
    ev, mark = r.fields[0]
    path = get(c, s, "path")
    if c.branch(has_enum(c, s)):
        k = c.case(c.load(ev.cell, ev.path))
        if k == "Scalar" and not c.branch(strof(c.run, scalar(c, ev, "value")) == S("")):
            return at_mark(c, visit(c, "enum", visitor, mkstruct(c, UNITA, de=s)), mark, path)
        cu = c.field(get(c, s, "current_enum"), "Some", 0, CUR)
        cur_ = c.mkref(cu, "shared", CUR)
        tag, nm = strof(c.run, get(c, cur_, "tag")), get(c, cur_, "name")
        if c.case(nm) == "Some":
            m = z3.Concat(S("deserializing nested enum in "), strof(c.run, c.field(nm, "Some", 0, "&str")), S("::"), tag, S(" from YAML is not supported yet"))
        else:
            m = z3.Concat(S("deserializing nested enum in !"), tag, S(" from YAML is not supported yet"))
        return at_mark(c, err(c.ret, new_error(c, "Message", m, none("std::option::Option<error::Pos>"))), mark, path)
    k = c.case(c.load(ev.cell, ev.path))
    if k == "Alias":
        advance(c, s, forget=False)
        return at_mark(c, follow(c, s, c.load(ev.cell, ev.path + (("Alias", 0, "usize"),)), "deserialize_enum", name, variants, visitor), mark, path)
    if k in ("SequenceEnd", "MappingEnd"): c.panic("unexpected end")
    if k == "Void": return at_mark(c, err(c.ret, new_error(c, "EndOfStream")), mark, path)
    t = parse_tag_of(c, node_tag(c, ev, k))
    if t is not None:
        return visit_enum(c, s, visitor, some("std::option::Option<&str>", name), t)
    if k == "Scalar":
        return at_mark(c, visit(c, "enum", visitor, mkstruct(c, UNITA, de=s)), mark, path)
    e = serde_err(c, "invalid_type", unexpected("Map" if k == "MappingStart" else "Seq"), c.mkref(S("a YAML tag starting with '!'")))
    e = callf(c, "error::fix_mark", [e, mark, path], ERR)
    return at_mark(c, err(c.ret, e), mark, path)

def deserialize_newtype_struct(c, s, name, visitor):
    """the node itself, one level deeper"""
    r = peek(c, s)
    if r.variant == "Err": return r
    return recursion_check(c, s, r.fields[0][1], lambda d: visit(c, "newtype_struct", visitor, d))

def deserialize_ignored_any(c, s, visitor):
    """the whole node is passed over"""
    r = callf(c, "DeserializerFromEvents::ignore_any", [s], RESULT % "()")
    if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
    return visit(c, "unit", visitor)

def same_as(method, n):
    """a method that is another one with some arguments unused"""
    def f(c, s, *rest):
        return callf(c, "<&mut DeserializerFromEvents as Deserializer>::" + method, [s] + list(rest[n:]), c.ret)
    f.__doc__ = "the same as " + method
    return f

# ------------------------------------------------------------------ loops
IGN = "serde::de::IgnoredAny"
PHANTOM = Adt("std::marker::PhantomData<%s>" % IGN, None, [])

def end_collection(kind):
    """the elements the visitor left behind are passed over; then the end event; leftovers are an invalid length"""
    access, name = dict(seq=(SEQA, "rest of the sequence"), map=(MAPA, "rest of the mapping"))[kind]
    ENDS = ("SequenceEnd", "Void") if kind == "seq" else ("MappingEnd", "Void")
    def start(c, s, n):
        x = dict(empty=z3.BoolVal(False), de=s, len=n)
        if kind == "map": x["key"] = none(KEY)
        return c.tail(name, mkstruct(c, access, **x))
    start.__doc__ = end_collection.__doc__
    def step(c, args, acc):
        s, n = args
        a = c.mkref(acc, "mut", access)
        more = RESULT % ("std::option::Option<%s>" % IGN)
        def q(r):
            if c.case(r) == "Err": raise Return(err(c.ret, c.field(r, "Err", 0, ERR)))
            return r
        if kind == "seq":
            r = q(callf(c, "<SeqAccess as SeqAccess>::next_element_seed", [a, PHANTOM], more))
            got = c.case(c.field(r, "Ok", 0, "std::option::Option<%s>" % IGN)) == "Some"
        else:
            r = q(callf(c, "<MapAccess as MapAccess>::next_key_seed", [a, PHANTOM], more))
            got = c.case(c.field(r, "Ok", 0, "std::option::Option<%s>" % IGN)) == "Some"
            if got: q(callf(c, "<MapAccess as MapAccess>::next_value_seed", [a, PHANTOM], RESULT % IGN))
        if got:
            return c.tail(name, c.load(a.cell, a.path))
        total = get(c, a, "len")
        ev, mark = take_next(c, s)
        if c.case(c.load(ev.cell, ev.path)) not in ENDS: c.panic("expected the end event")
        if c.branch(total == n): return ok(c.ret, UNIT)
        one, many, last = dict(seq=("sequence of 1 element", "sequence of ", " elements"), map=("map containing 1 entry", "map containing ", " entries"))[kind]
        t = S(one) if c.branch(n == 1) else z3.Concat(S(many), int_text(n), S(last))
        return err(c.ret, serde_err(c, "invalid_length", total, t))
    def state(view):
        return [view.run.load(view.var(access))]
    def inv(run, view):
        a = run.load(view.var(access))
        return [("not the empty access", z3.Not(run.field(a, None, run.fidx(access, "empty"), "bool")))]
    return start, exe.TailLoop(name, state, step)

def ignore_any_loop():
    name = "rest of the node"
    def start(c, s):
        """events are passed over until the node they belong to is complete"""
        e = lib.vec_empty(c.run, "std::vec::Vec<Nest>")
        return c.tail(name, e)
    def step(c, args, stack):
        s, = args
        ev, mark = take_next(c, s)
        k = c.case(c.load(ev.cell, ev.path))
        st = c.mkref(stack, "mut", stack.ty)
        if k in ("SequenceStart", "MappingStart"):
            lib.vec_push_val(c.run, st, Adt("Nest", "Sequence" if k[0] == "S" else "Mapping", []))
        elif k in ("SequenceEnd", "MappingEnd"):
            x = lib.vec_pop_val(c.run, st, "Nest")
            if x is None or c.case(x) != ("Sequence" if k[0] == "S" else "Mapping"): c.panic("unexpected end")
        if c.branch(vec_len(c.run, c.load(st.cell, st.path)) == 0):
            return ok(c.ret, UNIT)
        return c.tail(name, c.load(st.cell, st.path))
    def state(view):
        return [view.run.load(view.var_where(lambda t: t.startswith("std::vec::Vec<") and t.endswith("Nest>")))]
    def inv(run, view):
        d = owner(run, run.args_cells[0])
        return [("position", cur(run, d, "pos") <= n_events(run, d))]
    def left(run, view):
        d = owner(run, run.args_cells[0])
        return n_events(run, d) - cur(run, d, "pos")
    return start, exe.TailLoop(name, state, step, inv=inv, decreases=left)

def invalid_type(c, ev, exp):
    """the event as serde's Unexpected (a scalar as what the grammar makes of it); end of stream for the empty document"""
    k = c.case(c.load(ev.cell, ev.path))
    if k in ("Alias", "SequenceEnd", "MappingEnd"): c.panic("not a node")
    if k == "Scalar":
        r = callf(c, "de::visit_scalar", [Adt("InvalidType", None, [exp]), Ref(ev.cell, ev.path + (("Scalar", 0, SCALAR),), "shared", SCALAR), z3.BoolVal(False)], RESULT % "Void")
        return c.field(r, "Err", 0, ERR)
    if k == "Void": return new_error(c, "EndOfStream")
    return serde_err(c, "invalid_type", unexpected("Seq" if k == "SequenceStart" else "Map"), exp)

# ------------------------------------------------------------------ payload of a variant
def newtype_variant_seed(c, d, sd):
    """the payload is the node itself"""
    return seed(c, sd, c.mkref(d, "mut", DFE), c.ret)

def variant(method, n):
    def f(c, d, *rest):
        return callf(c, "<&mut DeserializerFromEvents as Deserializer>::" + method, [c.mkref(d, "mut", DFE)] + list(rest[n:]), c.ret)
    f.__doc__ = "the payload is read by " + method
    return f

def struct_variant(c, d, fields, visitor):
    """the payload is read as a struct"""
    return callf(c, "<&mut DeserializerFromEvents as Deserializer>::deserialize_struct", [c.mkref(d, "mut", DFE), S(""), fields, visitor], c.ret)

def unit_variant(c, d):
    """the payload is null"""
    return callf(c, "<() as Deserialize>::deserialize", [c.mkref(d, "mut", DFE)], c.ret)

def unit_access_seed(c, u, sd):
    """the scalar itself names the variant"""
    d = get(c, c.mkref(u, "mut", UNITA), "de")
    r = seed(c, sd, d, RESULT % tuple_tys(ty_args(c.ret)[0])[0])
    if c.case(r) == "Err": return err(c.ret, c.field(r, "Err", 0, ERR))
    return ok(c.ret, (c.field(r, "Ok", 0, "V"), u))

def unit_only(what):
    def f(c, u, *rest):
        return err(c.ret, serde_err(c, "invalid_type", unexpected("UnitVariant"), S(what)))
    f.__doc__ = "a bare scalar is no " + what
    return f

def jumps(m):
    """an alias may be followed as often as jumps are left"""
    def left(run, s, *rest):
        d = owner(run, s)
        n = 100 * n_events(run, d) - cur(run, d, "jumpcount")
        return z3.If(n > 0, n, z3.IntVal(0))
    return ("aliases of " + m, left)

def register(R):
    G = ("C12", "C13", "C21")
    D = "DeserializerFromEvents::"
    A = "<&mut DeserializerFromEvents as Deserializer>::"
    kw = dict(pre=pre_dfe, ensures=keeps_pos)
    for f in (peek_event_mark, peek_event, next_event_mark, next_event):
        R.add(D + f.__name__, f, G + ("C15", "C16"), **kw)
    R.add(D + "jump", jump, ("C10", "C11", "C16", "C21"), pre=lambda run, s, p: pre_dfe(run, s) + [("the alias is in the table", alias_target(run, doc_of(run, deep(run, s)), run.load(p.cell, p.path))[0])])
    R.add(D + "recursion_check", recursion_check, ("C11", "C21"), pre=pre_dfe)
    ints = lambda t: (lambda c, s: cs.int_of(c, s, ["", "+"] + (["-"] if t[0] == "i" else []), t))
    for t in ("i64", "u64", "i128", "u128"):
        R.add(A + "deserialize_" + t, typed_scalar("deserialize_" + t, TAGS["INT"], ints(t), t, t), ("C01", "C03", "C10", "C16"), opaque=True, cost=10, rank=jumps(t), **kw)
    R.add(A + "deserialize_bool", typed_scalar("deserialize_bool", TAGS["BOOL"], cs.parse_bool, "bool", "bool"), ("C01", "C03", "C10", "C16"), opaque=True, rank=jumps("bool"), **kw)
    R.add(A + "deserialize_f64", typed_scalar("deserialize_f64", TAGS["FLOAT"], cs.parse_f64, "f64", "f64"), ("C01", "C03", "C10", "C16"), opaque=True, rank=jumps("f64"), **kw)
    R.add(A + "deserialize_str", deserialize_str, ("C01", "C02", "C10", "C15", "C16"), opaque=True, rank=jumps("str"), **kw)
    for t in ("bytes", "byte_buf"):
        R.add(A + "deserialize_" + t, bytes_unsupported, ("C03",), opaque=True)
    R.add(A + "deserialize_unit", deserialize_unit, ("C01", "C03", "C10", "C13", "C16"), opaque=True, rank=jumps("unit"), **kw)
    R.add(A + "deserialize_option", deserialize_option, ("C01", "C03", "C10", "C13"), opaque=True, panics=True, rank=jumps("option"), **kw)
    R.add(A + "deserialize_seq", collection("seq"), ("C10", "C12", "C16"), opaque=True, rank=jumps("seq"), **kw)
    R.add(A + "deserialize_map", collection("map"), ("C10", "C12", "C16"), opaque=True, rank=jumps("map"), **kw)
    R.add(A + "deserialize_any", deserialize_any, ("C01", "C06", "C10", "C12", "C16"), opaque=True, panics=True, rank=jumps("any"), **kw)
    R.add(A + "deserialize_enum", deserialize_enum, ("C06", "C10", "C12", "C16"), opaque=True, panics=True, rank=jumps("enum"), **kw)
    R.add(A + "deserialize_newtype_struct", deserialize_newtype_struct, ("C11", "C12"), opaque=True, **kw)
    R.add(A + "deserialize_ignored_any", deserialize_ignored_any, ("C12",), opaque=True, **kw)
    for t in ("i8", "i16", "i32"): R.add(A + "deserialize_" + t, same_as("deserialize_i64", 0), ("C01", "C03"), opaque=True, **kw)
    for t in ("u8", "u16", "u32"): R.add(A + "deserialize_" + t, same_as("deserialize_u64", 0), ("C01", "C03"), opaque=True, **kw)
    R.add(A + "deserialize_f32", same_as("deserialize_f64", 0), ("C01", "C03"), opaque=True, **kw)
    for t in ("char", "string", "identifier"): R.add(A + "deserialize_" + t, same_as("deserialize_str", 0), ("C01", "C02"), opaque=True, **kw)
    R.add(A + "deserialize_unit_struct", same_as("deserialize_unit", 1), ("C01", "C03"), opaque=True, **kw)
    R.add(A + "deserialize_tuple", same_as("deserialize_seq", 1), ("C12",), opaque=True, **kw)
    R.add(A + "deserialize_tuple_struct", same_as("deserialize_seq", 2), ("C12",), opaque=True, **kw)
    R.add(A + "deserialize_struct", same_as("deserialize_map", 2), ("C12",), opaque=True, **kw)
    R.add(D + "visit_sequence", visit_collection("seq"), ("C11", "C12"), opaque=True, **kw)
    R.add(D + "visit_mapping", visit_collection("map"), ("C11", "C12"), opaque=True, **kw)
    R.add("<SeqAccess as SeqAccess>::next_element_seed", next_element_seed, ("C12", "C16"), opaque=True, **kw)
    R.add("<MapAccess as MapAccess>::next_key_seed", next_key_seed, ("C12", "C16"), opaque=True, **kw)
    R.add("<MapAccess as MapAccess>::next_value_seed", next_value_seed, ("C12", "C16"), opaque=True, **kw)
    R.add("<EnumAccess as EnumAccess>::variant_seed", enum_variant_seed, ("C06", "C12", "C16"), opaque=True)
    R.add("de::parse_tag", parse_tag, ("C06", "C21"))
    R.add("de::is_plain_or_tagged_literal_scalar", is_plain_or_tagged, ("C01",))
    R.add("de::visit_scalar", visit_scalar, ("C01", "C02", "C06"), opaque=True, cost=20)
    V = "<DeserializerFromEvents as VariantAccess>::"
    for kind in ("seq", "map"):
        st, lp = end_collection(kind)
        R.add(D + ("end_sequence" if kind == "seq" else "end_mapping"), st, ("C11", "C12", "C16"), opaque=True, loops={0: lp}, panics=True, **kw)
    st, lp = ignore_any_loop()
    R.add(D + "ignore_any", st, ("C12", "C21"), opaque=True, loops={0: lp}, panics=True, **kw)
    R.add("de::invalid_type", invalid_type, ("C16", "C21"), opaque=True, panics=True)
    kv = dict(pre=pre_dfe)
    R.add(V + "newtype_variant_seed", newtype_variant_seed, ("C06", "C12"), opaque=True, **kv)
    R.add(V + "unit_variant", unit_variant, ("C06", "C12"), opaque=True, **kv)
    R.add(V + "tuple_variant", variant("deserialize_seq", 1), ("C06", "C12"), opaque=True, **kv)
    R.add(V + "struct_variant", struct_variant, ("C06", "C12"), opaque=True, **kv)
    UN = "<UnitVariantAccess as VariantAccess>::"
    R.add("<UnitVariantAccess as EnumAccess>::variant_seed", unit_access_seed, ("C06", "C12"), opaque=True)
    R.add(UN + "newtype_variant_seed", unit_only("newtype variant"), ("C06",), opaque=True)
    R.add(UN + "tuple_variant", unit_only("tuple variant"), ("C06",), opaque=True)
    R.add(UN + "struct_variant", unit_only("struct variant"), ("C06",), opaque=True)
