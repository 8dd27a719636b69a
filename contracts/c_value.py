"""value/mod.rs, value/partial_eq.rs, value/from.rs and the untag loops of value/tagged.rs: C22 (and what C05, C08, C18 use)"""
from contracts.dsl import *
from contracts import c_number as cn

V = "value::Value"
SEQ = "std::vec::Vec<value::Value>"
MAP = "mapping::Mapping"
BOXT = "std::boxed::Box<value::tagged::TaggedValue>"
TAGGED = "value::tagged::TaggedValue"
TAG = "value::tagged::Tag"

PAY = {"Bool": "bool", "Number": "number::Number", "String": "std::string::String", "Sequence": SEQ, "Mapping": MAP, "Tagged": BOXT}

# ------------------------------------------------------------------ what is under the tags
def inner(run, v):
    """the value a tagged value holds"""
    b = run.field(v, "Tagged", 0, BOXT)
    return run.field(deep(run, b), None, 1, V)

def size(run, t):
    """height of the (finite) tree"""
    n = run.app("height", [t], INT)
    run.axiom(n >= 0)
    return n

def untagged(run, v):
    """the untagged value: v itself unless tagged, else what its content is, untagged"""
    v = deep(run, v)
    if isinstance(v, Adt):
        return v if v.variant != "Tagged" else untagged(run, inner(run, v))
    if v.over:
        raise Unsupported("untag of a partly written value")
    t = v.term
    if t.decl().name().startswith("untagged"):
        return v
    u = run.app("untagged", [t], U)
    r = Sym(u, V)
    ist = run.is_variant(v, "Tagged")
    run.axiom(z3.Not(run.is_variant(r, "Tagged")))
    run.axiom(z3.Implies(z3.Not(ist), u == t))
    it = run.term(inner(run, v))
    run.axiom(z3.Implies(ist, u == run.app("untagged", [it], U)))
    run.axiom(z3.Implies(ist, size(run, it) < size(run, t)))
    size(run, t)
    return r

def untag_ref(c, s):
    """the first value under all tags"""
    return c.mkref(untagged(c.run, s), "shared", V)

def untag(c, s):
    return untagged(c.run, s)

def untag_mut(c, s):
    """a mutable reference to the value under all tags"""
    return umut(c.run, s)

def umut(run, s):
    """the place under the tags of a place"""
    for cur, root in getattr(run, "under", {}).items():
        if s.cell == cur and not s.path:
            return Ref(root, (), "mut", V)
        b = run.field(run.load(cur), "Tagged", 0, BOXT)
        if isinstance(b, Ref) and s.cell == b.cell and len(s.path) == 1 and s.path[0][:2] == (None, 1):
            return Ref(root, (), "mut", V)
    if s.cell[0] == "d" and str(s.cell[1]).startswith("under the tags of") and not s.path:
        return s
    here = run.load(s.cell, s.path)
    if isinstance(here, Adt) and here.variant is not None and here.variant != "Tagged":
        return Ref(s.cell, s.path, "mut", V)
    cell = ("d", "under the tags of %s%s" % (s.cell, s.path))
    if cell not in run.mem:
        run.mem[cell] = untagged(run, s)
    return Ref(cell, (), "mut", V)

def loop_untag(ty):
    def cur(view):
        return view.var(ty)
    def inv(run, view):
        v = run.load(cur(view))
        me = run.root_untagged
        return [("the same value is under the tags", run.eq(untagged(run, v), me))]
    def dec(run, view):
        return size(run, run.term(deep(run, run.load(cur(view)))))
    return {0: LoopSpec(inv, decreases=dec)}

def loop_under():
    """a loop that goes from a value to the one under its tags, by mutable reference"""
    T_ = "&mut value::Value"
    def inv(run, view):
        u = umut(run, run.load(view.var(T_)))
        if not hasattr(run, "under_entry"):     # the value under the tags when the loop is entered
            run.under_entry = run.root_place = u
        return [("still above the same value", z3.BoolVal(u.cell == run.root_place.cell and u.path == run.root_place.path))]
    def havoc(run, view):
        cell = view.var(T_)
        t = run.fresh("more tags", BOOL)
        if run.choose([t, z3.Not(t)]) == 0:
            c = ("d", "a value above it")
            run.mem[c] = run.matinit[c] = run.new("above", V)
            run.under = dict(getattr(run, "under", {})); run.under[c] = run.root_place.cell
            run.assume(run.is_variant(run.mem[c], "Tagged"))
            run.mem[cell] = Ref(c, (), "mut", V)
        else:
            run.mem[cell] = run.root_place
    def dec(run, view):
        v = deep(run, run.load(view.var(T_)))
        untagged(run, v)
        return size(run, run.term(v))
    return {0: LoopSpec(inv, havoc=havoc, decreases=dec)}

def under_args(i):
    def f(run, args):
        run.root_place = umut(run, args[i])
    return f

def untag_args(run, args):
    run.root_untagged = untagged(run, args[0])

def post_untag_mut(c, res, mem, s):
    run = c.run
    got = run.in_mem(mem, lambda: run.load(res.cell, res.path))
    return [("the value under the tags", run.eq(got, run.root_untagged)), ("is not tagged", z3.Not(run.is_variant(got, "Tagged"))),
            ("nothing is changed", z3.And([z3.BoolVal(True)] + [run.eq(v, mem[k], run.init, mem) for k, v in run.init.items() if k[0] == "d"]))]

def kind(c, s):
    """(variant, value) of what is under the tags; forks on the variant"""
    v = untagged(c.run, s)
    return c.case(v), v

def pay(c, v, k):
    return c.field(v, k, 0, PAY[k])

# ------------------------------------------------------------------ accessors
def is_kind(K):
    def f(c, s):
        return c.is_variant(untagged(c.run, s), K)
    return f
def as_null(c, s):
    return opt(c, c.is_variant(untagged(c.run, s), "Null"), UNIT)
def as_copy(K):
    def f(c, s):
        k, v = kind(c, s)
        return some(c.ret, pay(c, v, K)) if k == K else none(c.ret)
    return f
def as_ref(K):
    def f(c, s):
        k, v = kind(c, s)
        if k != K: return none(c.ret)
        x = pay(c, v, K)
        return some(c.ret, x if is_z3(x) else c.mkref(x, "shared", PAY[K]))
    return f
def as_mut(K):
    def f(c, s):
        r = umut(c.run, s)
        if c.case(c.load(r.cell)) != K: return none(c.ret)
        return some(c.ret, Ref(r.cell, ((K, 0, PAY[K]),), "mut", PAY[K]))
    return f
def num_pred(f):
    def g(c, s):
        k, v = kind(c, s)
        return f(c, pay(c, v, "Number")) if k == "Number" else z3.BoolVal(False)
    return g
def num_get(f):
    def g(c, s):
        k, v = kind(c, s)
        return f(c, pay(c, v, "Number")) if k == "Number" else none(c.ret)
    return g

# ------------------------------------------------------------------ comparison with primitives
def eq_str(c, s, o):
    k, v = kind(c, s)
    return pay(c, v, "String") == strof(c.run, deep(c.run, o)) if k == "String" else z3.BoolVal(False)
def eq_bool(c, s, o):
    k, v = kind(c, s)
    return pay(c, v, "Bool") == deep(c.run, o) if k == "Bool" else z3.BoolVal(False)
def eq_int(c, s, o):
    """equal to exactly the integer of that value"""
    k, v = kind(c, s)
    if k != "Number": return z3.BoolVal(False)
    l, x = num(c, pay(c, v, "Number"))
    return z3.BoolVal(False) if l == "Float" else x == deep(c.run, o)
def eq_float(c, s, o):
    """a float compares by value with the float, an integer after conversion to f64"""
    k, v = kind(c, s)
    if k != "Number": return z3.BoolVal(False)
    l, x = num(c, pay(c, v, "Number"))
    return z3.fpEQ(x if l == "Float" else exe.i2f(c.run, x, "f64"), exe.fconv(deep(c.run, o), "f64"))

# ------------------------------------------------------------------ conversions into Value
def mk(K, *f): return Adt(V, K, list(f))
def from_int(c, i): return mk("Number", int_number(c, i))
def from_float(c, f): return mk("Number", cn.from_float(c, f))
def from_bool(c, b): return mk("Bool", b)
def from_string(c, s): return mk("String", strof(c.run, s))
def from_mapping(c, m): return mk("Mapping", m)
def post_from_seq(c, res, mem, v):
    """a sequence of the elements' conversions, in order"""
    run = c.run
    if not (isinstance(res, Adt) and res.variant == "Sequence"):
        return [("is a sequence", z3.BoolVal(False))]
    s = deep(run, res.fields[0])
    src = deep(run, v)
    n = vec_len(run, src)
    j = z3.Int("j")
    run.assume(z3.And(j >= 0, j < n))
    el = run.elem(s, j, V)
    want = uninterp(run, "Into::into", [run.elem(src, j, "T")], V)
    return [("same length", vec_len(run, s) == n), ("element j is the conversion of element j", run.eq(el, want, mem, mem))]

def clone(c, s):
    """an equal value"""
    return deep(c.run, s)

def register(R):
    C = ("C22",)
    for t in "Value Mapping TaggedValue Tag Number N".split():
        R.add("<%s as Clone>::clone" % t, clone, ("C22", "C05", "C08", "C18"))
    R.add("Value::untag_ref", untag_ref, ("C22", "C18", "C08"), loops=loop_untag("&value::Value"), args=untag_args)
    R.add("Value::untag", untag, ("C18", "C22"), loops=loop_untag("value::Value"), args=untag_args)
    R.add("Value::untag_mut", untag_mut, ("C22", "C08"), loops=loop_untag("&mut value::Value"), args=untag_args, post=post_untag_mut)
    for n, k in dict(is_null="Null", is_bool="Bool", is_number="Number", is_string="String", is_sequence="Sequence", is_mapping="Mapping").items():
        R.add("Value::" + n, is_kind(k), C)
    R.add("Value::as_null", as_null, C)
    R.add("Value::as_bool", as_copy("Bool"), C)
    for n, f in dict(as_i64=cn.as_i64, as_u64=cn.as_u64, as_f64=cn.as_f64).items():
        R.add("Value::" + n, num_get(f), ("C22", "C04"))
    for n, f in dict(is_i64=cn.is_i64, is_u64=cn.is_u64, is_f64=cn.is_f64).items():
        R.add("Value::" + n, num_pred(f), ("C22", "C04"))
    R.add("Value::as_str", as_ref("String"), C)
    R.add("Value::as_sequence", as_ref("Sequence"), C)
    R.add("Value::as_mapping", as_ref("Mapping"), C)
    R.add("Value::as_sequence_mut", as_mut("Sequence"), C)
    R.add("Value::as_mapping_mut", as_mut("Mapping"), C)
    for t in ("<str>", "<&str>", "<String>"):
        R.add("<Value as PartialEq>::eq " + t, eq_str, C, modular=False)
    R.add("<Value as PartialEq>::eq <bool>", eq_bool, C, modular=False)
    for s in ("", "&", "&mut "):
        for t in "i8 i16 i32 i64 isize u8 u16 u32 u64 usize".split():
            R.add("<%sValue as PartialEq>::eq (&%svalue::Value, &%s)" % (s, s, t), eq_int, C, modular=False)
        for t in ("f32", "f64"):
            R.add("<%sValue as PartialEq>::eq (&%svalue::Value, &%s)" % (s, s, t), eq_float, C, modular=False)
    for t in "i8 i16 i32 i64 isize u8 u16 u32 u64 usize".split():
        R.add("<Value as From>::from (%s)" % t, from_int, ("C22", "C04"))
    for t in ("f32", "f64"):
        R.add("<Value as From>::from (%s)" % t, from_float, ("C22", "C04"))
    R.add("<Value as From>::from <bool>", from_bool, C)
    for t in ("<String>", "<&str>", "<Cow>"):
        R.add("<Value as From>::from " + t, from_string, C)
    R.add("<Value as From>::from <Mapping>", from_mapping, C)
    for t in ("<Vec>", "<&[T]>"):
        R.add("<Value as From>::from " + t, None, C, post=post_from_seq, modular=False)
    laws(R)

def laws(R):
    def exclusive(c):
        v = c.const("v", V)
        u = untagged(c.run, v)
        k = c.case(u)
        ks = ["Null", "Bool", "Number", "String", "Sequence", "Mapping"]
        c.oblige("what is under the tags is of exactly one kind", z3.BoolVal(k in ks))
        c.oblige("the is_ predicates are exclusive and exhaustive", z3.BoolVal(sum(1 for q in ks if q == k) == 1))
        c.ret = "std::option::Option<X>"
        for q, f in dict(Bool=as_copy("Bool"), String=as_ref("String"), Sequence=as_ref("Sequence"), Mapping=as_ref("Mapping")).items():
            c.oblige("as_%s answers exactly when is_%s" % (q, q), is_kind(q)(c, v) == z3.BoolVal(f(c, v).variant == "Some"))
    R.lemma("Value: predicates and accessors agree, tags do not matter", ("C22",), exclusive)
    def roundtrip(c):
        x = c.const("x", "i128")
        c.assume(z3.And(x >= I64[0], x <= U64[1]))
        v = from_int(c, x)
        c.oblige("a converted integer equals itself", eq_int(c, v, x))
        y = c.const("y", "i128")
        c.oblige("and nothing else", eq_int(c, v, y) == (x == y))
    R.lemma("Value: a converted integer equals exactly that integer", ("C22", "C04"), roundtrip)
