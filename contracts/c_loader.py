"""loader.rs and the outer Deserializer: documents of a stream (C10, C12, C13, C15, C20)"""
from contracts.dsl import *
from contracts import c_events as ce
from contracts.c_events import DFE, DOC, EV, MARK, PATH, PAIR, CE, SCALAR, get, put, at

LOADER, PARSER, PROGRESS, DE = "loader::Loader", "libyaml::parser::Parser", "de::Progress", "de::Deserializer"
YEV, LERR, ANCHOR = "libyaml::parser::Event", "libyaml::error::Error", "libyaml::parser::Anchor"
ARC = "std::sync::Arc<error::ErrorImpl>"
OARC = "std::option::Option<%s>" % ARC
OPARSER = "std::option::Option<%s>" % PARSER
AMAP = "std::collections::BTreeMap<%s, usize>" % ANCHOR
IMAP = "std::collections::BTreeMap<usize, usize>"
EVENTS = "std::vec::Vec<%s>" % PAIR
NEXT = "std::result::Result<(%s, %s), %s>" % (YEV, MARK, LERR)
STRUCTS[LOADER] = ("src/loader.rs", [("parser", OPARSER, "mut"), ("document_count", "usize", "mut")])
STRUCTS[DE] = ("src/de.rs", [("progress", PROGRESS, "mut")])

def loader_inv(run, l):
    """a loader's parser reads its own input and has not come to its end"""
    from contracts import c_libyaml as cy
    p = run.field(l, None, run.fidx(LOADER, "parser"), OPARSER)
    return z3.BoolVal(True) if isinstance(p, Adt) and p.variant == "None" else opt_inv(run, p)

def opt_inv(run, p):
    from contracts import c_libyaml as cy
    x = run.field(p, "Some", 0, PARSER)
    return z3.Implies(run.is_variant(p, "Some"), z3.And(cy.belongs(run, x), cy.going(run, x)))

def loader_type_inv(run, v, variant, i, r):
    if i == run.fidx(LOADER, "parser") and not isinstance(r, Adt) and v.ty == LOADER: run.axiom(opt_inv(run, r))
vc.TYPE_INV["Loader"] = loader_type_inv

# ------------------------------------------------------------------ one document
def empty_map(c, ty):
    e = z3.Const("map_empty", U)
    c.run.axiom(c.run.app("maplen", [e], INT) == 0)
    c.run.mapempty = True
    return Sym(e, ty)

def map_put(c, m, k, v):
    """insert without looking at the old value"""
    run = c.run
    mt, k, v = run.term(m), run.term(k), run.term(v)
    has, _ = lib.map_lookup(run, mt, k, "usize")
    t = run.app("mapput", [mt, k, v], U)
    run.axiom(run.app("maplen", [t], INT) == run.app("maplen", [mt], INT) + z3.If(has, 0, 1))
    run.axiom(run.app("maphas", [t, k], BOOL))
    run.axiom(run.app("mapat", [t, k], v.sort()) == v)
    run.mapputs = getattr(run, "mapputs", []) + [(t, mt, k, v)]
    return Sym(t, m.ty)

def map_len(c, m):
    n = c.run.app("maplen", [c.run.term(m)], INT)
    c.run.axiom(n >= 0)
    return n

def empty_doc(c):
    return mkstruct(c, DOC, events=lib.vec_empty(c.run, EVENTS), error=none(OARC), aliases=empty_map(c, IMAP))

def next_document(c, s):
    """no document when the stream has ended; else the events up to the end of the next one"""
    if c.case(get(c, s, "parser")) == "None": return none(c.ret)
    n = get(c, s, "document_count")
    c.run.axiom(n < 2**64 - 1)
    put(c, s, "document_count", n + 1)
    return c.tail("events of a document", z3.simplify(n == 0), empty_map(c, AMAP), empty_doc(c))

def end_stream(c, s):
    put(c, s, "parser", none(OPARSER))

def failed(c, s, d, impl):
    """the stream ends here; the document keeps what came before and the error"""
    end_stream(c, s)
    b = Ref(c.alloc(impl, "box"), (), "shared", IMPL)
    put(c, d, "error", some(OARC, b))
    return some(c.ret, c.load(d.cell, d.path))

def push_event(c, d, ev, mark):
    r = at(c, d, "events")
    lib.vec_push_val(c.run, r, Adt(PAIR, None, [ev, mark]))

def doc_step(c, args, first, anchors, doc):
    """one event of the parser"""
    s, = args
    d = c.mkref(doc, "mut", DOC)
    p = Ref(s.cell, s.path + ((None, c.run.fidx(LOADER, "parser"), OPARSER), ("Some", 0, PARSER)), "mut", PARSER)
    r = parser_next(c, p)
    if c.case(r) == "Err":
        return failed(c, s, d, Adt(IMPL, "Libyaml", [c.field(r, "Err", 0, LERR)]))
    pair = c.field(r, "Ok", 0, "(%s, %s)" % (YEV, MARK))
    ev, mark = c.field(pair, None, 0, YEV), c.field(pair, None, 1, MARK)
    k = c.case(ev)
    def again(): return c.tail("events of a document", first, anchors, c.load(d.cell, d.path))
    if k in ("StreamStart", "DocumentStart"): return again()
    if k == "DocumentEnd": return some(c.ret, doc)
    if k == "StreamEnd":
        end_stream(c, s)
        if not c.branch(first): return none(c.ret)
        if c.branch(vec_len(c.run, get(c, d, "events")) == 0):
            push_event(c, d, Adt(EV, "Void", []), mark)
        return some(c.ret, c.load(d.cell, d.path))
    if k == "Alias":
        name = c.run.term(c.field(ev, k, 0, ANCHOR))
        c.run.anames = [name]
        has, id = lib.map_lookup_pair(c.run, c.run.term(anchors), name)
        if not c.branch(has):
            return failed(c, s, d, Adt(IMPL, "UnknownAnchor", [mark]))
        push_event(c, d, Adt(EV, "Alias", [id]), mark)
        return again()
    if k in ("SequenceEnd", "MappingEnd"):
        push_event(c, d, Adt(EV, k, []), mark)
        return again()
    ty = "libyaml::parser::" + k
    node = c.mkref(c.field(ev, k, 0, ty), "mut", ty)
    a = get(c, node, "anchor")
    if c.case(a) == "Some":
        # from here on the name means this node
        al = get(c, d, "aliases")
        id = map_len(c, al)
        anchors = map_put(c, anchors, c.field(a, "Some", 0, ANCHOR), id)
        put(c, d, "aliases", map_put(c, al, id, vec_len(c.run, get(c, d, "events"))))
    put(c, node, "anchor", none("std::option::Option<%s>" % ANCHOR))
    push_event(c, d, Adt(EV, k, [c.load(node.cell, node.path)]), mark)
    return again()

def doc_loop():
    def state(view):
        run = view.run
        return [run.load(view.cell("first")), run.load(view.var_where(lambda t: t.startswith("std::collections::BTreeMap<") and "Anchor" in t)), run.load(view.var(DOC))]
    def inv(run, view):
        s = run.args_cells[0]
        p = run.field(run.load(s.cell, s.path), None, run.fidx(LOADER, "parser"), OPARSER)
        return [("the parser is there", run.is_variant(p, "Some")),
                ("libyaml reads its input and has more", loader_inv(run, run.load(s.cell, s.path))),
                ("no error yet", run.is_variant(run.field(run.load(view.var(DOC)), None, run.fidx(DOC, "error"), OARC), "None"))]
    return exe.TailLoop("events of a document", state, doc_step, inv=inv)

# ------------------------------------------------------------------ input
def progress_of(c, p): return p

def bytes_input(c, b): return Adt("std::borrow::Cow<[u8]>", "Borrowed", [b])

def new_parser(c, cow):
    from contracts import c_libyaml as cy
    r = uninterp(c.run, "Parser::new", [cow], PARSER)
    c.run.axiom(z3.And(cy.belongs(c.run, r), cy.going(c.run, r)))
    return r

def parser_next(c, p):
    from contracts import c_libyaml as cy
    r = uninterp(c.run, "Parser::next", [p], NEXT)
    for n, f in cy.next_facts(c.run, p, r): c.run.assume(f)
    return r

def loader_new(c, p):
    """the bytes themselves, or all the reader has; a reader's failure is the error; a failed stream fails again"""
    k = c.case(p)
    if k in ("Iterable", "Document"): c.panic("not an input")
    if k == "Fail": return err(c.ret, new_error(c, "Shared", c.field(p, k, 0, ARC)))
    if k in ("Str", "Slice"):
        cow = bytes_input(c, strof(c.run, c.field(p, k, 0, "&[u8]")))
    else:
        rd = c.field(p, k, 0, "std::boxed::Box<dyn std::io::Read>")
        buf = c.mkref(S(""), "mut", "std::vec::Vec<u8>")
        r = uninterp(c.run, "Read::read_to_end", [Ref(rd.cell, rd.path, "mut", rd.ty), buf], "std::result::Result<usize, std::io::Error>")
        if c.case(r) == "Err": return err(c.ret, new_error(c, "Io", c.field(r, "Err", 0, "std::io::Error")))
        cow = Adt("std::borrow::Cow<[u8]>", "Owned", [c.load(buf.cell, buf.path)])
    return ok(c.ret, mkstruct(c, LOADER, parser=some(OPARSER, new_parser(c, cow)), document_count=z3.IntVal(0)))

def from_input(variant):
    def f(c, x):
        if variant == "Read": x = Ref(c.alloc(x, "box"), (), "box", c.tys[0])
        return mkstruct(c, DE, progress=Adt(PROGRESS, variant, [x]))
    f.__doc__ = "a deserializer of this input"
    return f

# ------------------------------------------------------------------ one value, many documents
def reader(c, doc):
    """a reader at the start of a document"""
    return mkstruct(c, DFE, document=doc, pos=c.mkref(z3.IntVal(0), "mut", "usize"), jumpcount=c.mkref(z3.IntVal(0), "mut", "usize"), path=Adt(PATH, "Root", []),
                    remaining_depth=z3.IntVal(128), current_enum=none(CE))

def read_one(c, doc, f):
    d = c.mkref(doc, "shared", DOC)
    r = callv(c, f, [c.mkref(reader(c, d), "mut", DFE)], ["&mut " + DFE], c.ret)
    if c.case(r) == "Err": raise Return(r)
    e = c.field(doc, None, c.run.fidx(DOC, "error"), OARC)
    if c.case(e) == "Some":
        raise Return(err(c.ret, new_error(c, "Shared", c.field(e, "Some", 0, ARC))))
    return r

def one_document(c, de, f):
    """exactly one document, read by f from its start, without a parse error in it, and none after it"""
    p = c.field(de, None, c.run.fidx(DE, "progress"), PROGRESS)
    k = c.case(p)
    if k == "Iterable": return err(c.ret, new_error(c, "MoreThanOneDocument"))
    if k == "Document": return read_one(c, c.field(p, k, 0, DOC), f)
    ret, c.ret = c.ret, RESULT % LOADER
    l = loader_new(c, p)
    c.ret = ret
    if l.variant == "Err": return err(c.ret, l.fields[0])
    s = c.mkref(l.fields[0], "mut", LOADER)
    ODOC = "std::option::Option<%s>" % DOC
    d = callf(c, "Loader::next_document", [s], ODOC)
    if c.case(d) == "None": return err(c.ret, new_error(c, "EndOfStream"))
    r = read_one(c, c.field(d, "Some", 0, DOC), f)
    more = callf(c, "Loader::next_document", [s], ODOC)
    if c.case(more) == "None": return r
    return err(c.ret, new_error(c, "MoreThanOneDocument"))

def outer(method):
    def f(c, de, *rest):
        return one_document(c, de, lambda d: callf(c, "<&mut DeserializerFromEvents as Deserializer>::" + method, [d] + list(rest), c.ret))
    f.__doc__ = "exactly one document, read by " + method
    return f

def iterate(c, s):
    """the next document of the stream; a failure to read the input is the only item; one document has no next one"""
    p = get(c, s, "progress")
    k = c.case(p)
    me = lambda variant, x: some(c.ret, mkstruct(c, DE, progress=Adt(PROGRESS, variant, [x])))
    def from_loader():
        l = Ref(s.cell, s.path + ((None, c.run.fidx(DE, "progress"), PROGRESS), ("Iterable", 0, LOADER)), "mut", LOADER)
        d = callf(c, "Loader::next_document", [l], "std::option::Option<%s>" % DOC)
        if c.case(d) == "None": return none(c.ret)
        return me("Document", c.field(d, "Some", 0, DOC))
    if k == "Iterable": return from_loader()
    if k == "Document": return none(c.ret)
    if k == "Fail": return me("Fail", c.field(p, k, 0, ARC))
    ret, c.ret = c.ret, RESULT % LOADER
    l = loader_new(c, p)
    c.ret = ret
    if l.variant == "Ok":
        put(c, s, "progress", Adt(PROGRESS, "Iterable", [l.fields[0]]))
        return from_loader()
    a = Ref(l.fields[0].fields[0].cell, (), "shared", IMPL)
    put(c, s, "progress", Adt(PROGRESS, "Fail", [a]))
    return me("Fail", a)

OUTER = "any bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any".split()

def register(R):
    R.assume(("C10", "C12", "C13", "C21"), "libyaml delivers the events of a stream balanced, in text order, each with the position it starts at")
    R.assume(("C10", "C11"), "the number of events, documents, siblings and alias jumps of one input stays below 2^64")
    R.add("Loader::next_document", next_document, ("C10", "C12", "C13", "C21"), opaque=True, loops={0: doc_loop()},
          ensures=lambda run, args, r, init: [("libyaml reads its input and has more", loader_inv(run, deep(run, args[0])))],
          pre=lambda run, s: run.axiom(run.field(run.load(s.cell, s.path), None, run.fidx(LOADER, "document_count"), "usize") < 2**64 - 1) or [])
    R.add("Loader::new", loader_new, ("C13", "C15", "C20"), panics=True,
          ensures=lambda run, args, r, init: [("libyaml reads its input and has more", z3.Implies(run.is_variant(r, "Ok"), loader_inv(run, run.field(r, "Ok", 0, LOADER))))] if not isinstance(r, Adt) or r.variant == "Ok" else [])
    for v, fn in (("Str", "str"), ("Slice", "slice"), ("Read", "reader")):
        R.add("Deserializer::from_" + fn, from_input(v), ("C15",))
    R.add("Deserializer::de", one_document, ("C12", "C13", "C15", "C20"))
    for m in OUTER:
        R.add("<Deserializer as Deserializer>::deserialize_" + m, outer("deserialize_" + m), ("C12", "C13", "C15", "C20"))
    unread = lambda run, s: z3.If(z3.Or([run.is_variant(get(__import__("engine").SpecCtx(run, [], None), s, "progress"), v) for v in ("Iterable", "Document", "Fail")]), z3.IntVal(0), z3.IntVal(1))
    R.add("<Deserializer as Iterator>::next", iterate, ("C13", "C20"), rank=("iterate", unread))

# ------------------------------------------------------------------ lemmas: what the table of aliases means
def alias_lemma(c):
    """Induction over the events: ids and targets stay valid and earlier, and every name stands for the last node that carried it."""
    run = c.run
    c.ret = "std::option::Option<%s>" % DOC
    app = run.app
    E, A, M, G = (z3.Const(n, U) for n in ("events", "aliases", "anchors", "ghost: name -> its last node"))
    length = lambda e: app("len", [e], INT)
    mlen = lambda m: app("maplen", [m], INT)
    def look(m, k): return lib.map_lookup(run, m, k, "usize")
    def event(e, i): return app("t0", [app("at", [e, i], U)], U)
    isalias = lambda ev: app("discr", [ev], INT) == run.discr_of(EV, "Alias")
    aid = lambda ev: app("Alias.0", [ev], INT)
    def ids(A, E, i):                 # ids are 0..n, targets lie among the events
        h, t = look(A, i)
        return z3.And(h == z3.And(i >= 0, i < mlen(A)), z3.Implies(h, z3.And(t >= 0, t < length(E))))
    def names(M, A, G, k):            # a name is known iff a node carried it, and leads to the last one
        h, id = look(M, k)
        hg, tg = look(G, k)
        ha, ta = look(A, id)
        return z3.And(h == hg, z3.Implies(h, z3.And(id >= 0, id < mlen(A), ta == tg)))
    def earlier(A, E, i):             # an alias event stands for an earlier event
        ev = event(E, i)
        h, t = look(A, aid(ev))
        return z3.Implies(z3.And(i >= 0, i < length(E), isalias(ev)), z3.And(h, t >= 0, t < i))
    run.axiom(z3.And(length(E) >= 0, mlen(A) >= 0))
    k0, i0, j0 = z3.Const("any name", U), z3.Const("any id", INT), z3.Const("any event", INT)
    loader = c.mkref(run.const("loader", LOADER), "mut", LOADER)
    run.assume(run.is_variant(get(c, loader, "parser"), "Some"))
    first = z3.Const("first", BOOL)
    doc = mkstruct(c, DOC, events=Sym(E, EVENTS), error=none(OARC), aliases=Sym(A, IMAP))
    try:
        how, r = "value", spec_call(doc_step, c, [loader], first, Sym(M, AMAP), doc)
    except exe.Tail as t:
        how, r = "tail", t
    if how == "value":
        if c.case(r) == "None": return
        doc2, M2 = r.fields[0], M
    else:
        doc2, M2 = r.state[2], run.term(r.state[1])
    f = lambda n, ty: run.term(run.field(doc2, None, run.fidx(DOC, n), ty))
    E2, A2 = f("events", EVENTS), f("aliases", IMAP)
    # the ghost map follows the anchors of the event just read
    G2, name = G, None
    if M2.get_id() != M.get_id():
        name = M2.arg(1)
        G2 = run.term(map_put(c, Sym(G, AMAP), name, length(E)))
    grew = E2.get_id() != E.get_id()
    if grew:
        # sequences: what was there stays there
        run.axiom(z3.Implies(z3.And(j0 >= 0, j0 < length(E)), app("at", [E2, j0], U) == app("at", [E, j0], U)))
    # induction hypothesis, at everything the step touches
    ks = [k0] + ([name] if name is not None else [])
    idl = [i0]
    new = event(E2, length(E))
    for k in list(ks):
        idl.append(look(M, k)[1]); idl.append(look(M2, k)[1])
    idl += [aid(event(E, j0)), aid(event(E2, j0)), aid(new), mlen(A)]
    for k in ks: run.assume(names(M, A, G, k))
    for i in idl: run.assume(ids(A, E, i))
    run.assume(earlier(A, E, j0))
    # an alias event: where its name leads
    if isinstance(r, exe.Tail) and grew and M2.get_id() == M.get_id():
        for k in getattr(run, "anames", []):
            run.assume(names(M, A, G, k))
            h, id = look(M, k)
            run.assume(ids(A, E, id))
            hg, tg = look(G, k)
            run.oblige("an alias stands for the last node of its name", z3.And(hg, look(A2, id)[1] == tg, aid(new) == id, isalias(new)), "aliases")
    c.oblige("ids and targets stay valid", ids(A2, E2, i0), "aliases")
    c.oblige("every name stands for its last node", names(M2, A2, G2, k0), "aliases")
    c.oblige("an alias stands for an earlier event", earlier(A2, E2, j0), "aliases")
    h, t = look(A, i0); h2, t2 = look(A2, i0)
    c.oblige("an id never changes its target", z3.Implies(h, z3.And(h2, t2 == t)), "aliases")

def ends_lemma(c):
    """After the last document, and after a document with a parse error, the stream is over for good."""
    run = c.run
    c.ret = "std::option::Option<%s>" % DOC
    loader = c.mkref(run.const("loader", LOADER), "mut", LOADER)
    run.assume(run.is_variant(get(c, loader, "parser"), "Some"))
    doc = run.const("document", DOC)
    run.assume(run.is_variant(run.field(doc, None, run.fidx(DOC, "error"), OARC), "None"))
    try:
        r = spec_call(doc_step, c, [loader], z3.Const("first", BOOL), run.const("anchors", AMAP), doc)
    except exe.Tail as t:
        d = t.state[2]
        c.oblige("no error inside", run.is_variant(run.field(d, None, run.fidx(DOC, "error"), OARC), "None"), "stream")
        return
    gone = run.is_variant(get(c, loader, "parser"), "None")
    if c.case(r) == "None": over = z3.BoolVal(True)
    else: over = run.is_variant(run.field(r.fields[0], None, run.fidx(DOC, "error"), OARC), "Some")
    c.oblige("over after the end or an error", z3.Implies(over, gone), "stream")
    if z3.is_true(z3.simplify(gone)):
        again = spec_call(next_document, c, loader)
        c.oblige("then nothing more", run.is_variant(again, "None"), "stream")

def same_input_lemma(c):
    """The text and its bytes are the same input."""
    b = z3.Const("text", STR)
    c.ret = RESULT % LOADER
    x, y = (loader_new(c, Adt(PROGRESS, v, [b])) for v in ("Str", "Slice"))
    c.oblige("same loader", c.run.eq(x, y), "input")

from engine import spec_call
_reg = register
def register(R):
    _reg(R)
    R.lemma("aliases lead to the last node of their name", ("C10", "C11", "C21"), alias_lemma, doc=alias_lemma.__doc__)
    R.lemma("a stream ends for good", ("C13",), ends_lemma, doc=ends_lemma.__doc__)
    R.lemma("text and bytes are the same input", ("C15",), same_input_lemma, doc=same_input_lemma.__doc__)
