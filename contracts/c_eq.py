"""Equality, order and hash of Value, Mapping and TaggedValue: C05"""
from contracts.dsl import *
from contracts import c_value as cv, c_mapping as cm, c_number as cn, c_tagged as ct
from contracts.c_mapping import im, MAP
from lib3 import im_len, im_keyref, im_val

V, TAGGED, SEQ, STRING = cv.V, cv.TAGGED, cv.SEQ, "std::string::String"
KINDS = ["Null", "Bool", "Number", "String", "Sequence", "Mapping", "Tagged"]
OORD = "std::option::Option<std::cmp::Ordering>"
O = lib.ordering

def eq_app(c, a, b):
    """equality of two parts, by their own PartialEq"""
    return c.run.app("eq", [c.run.term(a), c.run.term(b)], BOOL)
def eq_as(key):
    def f(c, a, b):
        return uninterp(c.run, key, [deep(c.run, a), deep(c.run, b)], "bool")
    return f
V_EQ, M_EQ, T_EQ = eq_as("Value == Value"), eq_as("Mapping == Mapping"), eq_as("TaggedValue == TaggedValue")
def v_eq(c, a, b):
    """same kind and equal content; the kind alone for null"""
    a, b = deep(c.run, a), deep(c.run, b)
    k, l = c.case(a), c.case(b)
    if k != l: return z3.BoolVal(False)
    if k == "Null": return z3.BoolVal(True)
    x, y = cv.pay(c, a, k), cv.pay(c, b, k)
    if k in ("Bool", "String"): return x == y
    if k == "Number": return cn.neq(c, x, y)
    if k == "Sequence": return eq_app(c, deep(c.run, x), deep(c.run, y))
    if k == "Mapping": return M_EQ(c, x, y)
    return T_EQ(c, deep(c.run, x), deep(c.run, y))
def m_eq(c, a, b):
    """the entries are equal, as indexmap compares them (their order does not matter)"""
    return eq_app(c, im(c, a), im(c, b))
def t_eq(c, a, b):
    """equal tags and equal values"""
    a, b = deep(c.run, a), deep(c.run, b)
    if not c.branch(ct.tag_eq(c, ct.tv_field(c, a, 0), ct.tv_field(c, b, 0))): return z3.BoolVal(False)
    return V_EQ(c, ct.tv_field(c, a, 1), ct.tv_field(c, b, 1))

# ------------------------------------------------------------------ hash
def feed(c, key, x, h):
    return uninterp(c.run, key, [x, h], "()")
def hash_as(key):
    def f(c, a, h): return feed(c, key, deep(c.run, a), h)
    return f
V_HASH, M_HASH, T_HASH = hash_as("hash(Value)"), hash_as("hash(Mapping)"), hash_as("hash(TaggedValue)")
def v_hash(c, a, h):
    """the kind, then the content"""
    a = deep(c.run, a)
    feed(c, "hash:discriminant", c.run.discr(a), h)
    k = c.case(a)
    if k == "Null": return UNIT
    x = cv.pay(c, a, k)
    if k == "Bool": return feed(c, "hash:bool", x, h)
    if k == "String": return feed(c, "hash:str", x, h)
    if k == "Number": return cn.hash_(c, x, h)
    if k == "Sequence": return feed(c, "hash:seq", deep(c.run, x), h)
    if k == "Mapping": return M_HASH(c, x, h)
    return T_HASH(c, deep(c.run, x), h)
def t_hash(c, a, h):
    ct.tag_hash(c, ct.tv_field(c, a, 0), h)
    return V_HASH(c, ct.tv_field(c, a, 1), h)
DH = "std::hash::DefaultHasher"
def m_hash(c, a, h):
    """the exclusive or of the entries' own hashes: the order of the entries does not matter"""
    return c.tail("entries", z3.IntVal(0), z3.IntVal(0))
def m_hash_step(c, args, x, i):
    m = im(c, args[0])
    if not c.branch(i < im_len(c.run, m)):
        return feed(c, "hash:u64", x, args[1])
    k, v = cm.pair_at(c, m, i)
    h = c.alloc(uninterp(c.run, "DefaultHasher::new", [], DH))
    r = Ref(h, (), "mut", DH)
    V_HASH(c, k, r); V_HASH(c, v, r)
    f = uninterp(c.run, "Hasher::finish", [Ref(h, (), "shared", DH)], "u64")
    return c.tail("entries", c.run.app("bit:BitXor", [x, f], INT), i + 1)

# ------------------------------------------------------------------ order
def t_partial_cmp(c, a, b):
    """by tag, then by value"""
    a, b = deep(c.run, a), deep(c.run, b)
    ret, c.ret = c.ret, "std::cmp::Ordering"
    o = ct.tag_cmp(c, ct.tv_field(c, a, 0), ct.tv_field(c, b, 0))
    c.ret = ret
    if o.variant != "Equal": return some(ret, o)
    return V_PCMP(c, ct.tv_field(c, a, 1), ct.tv_field(c, b, 1))
def cmp_as(key, ret=OORD):
    def f(c, a, b): return uninterp(c.run, key, [deep(c.run, a), deep(c.run, b)], ret)
    return f
V_PCMP, M_PCMP, T_PCMP = cmp_as("Value <=> Value"), cmp_as("Mapping <=> Mapping"), cmp_as("TaggedValue <=> TaggedValue")
TOTAL = cmp_as("total_cmp", "std::cmp::Ordering")
def bycase(c, x, y):
    if x.sort() == BOOL: return O(["Less", "Equal", "Greater"][c.choose([z3.And(z3.Not(x), y), x == y, z3.And(x, z3.Not(y))])])
    return call(c, "<str as std::cmp::Ord>::cmp", [x, y], ["&str", "&str"], "std::cmp::Ordering")
def v_partial_cmp(c, a, b):
    """by kind in declaration order, then by content"""
    a, b = deep(c.run, a), deep(c.run, b)
    k, l = c.case(a), c.case(b)
    i, j = KINDS.index(k), KINDS.index(l)
    if i != j: return some(c.ret, O("Less" if i < j else "Greater"))
    if k == "Null": return some(c.ret, O("Equal"))
    x, y = cv.pay(c, a, k), cv.pay(c, b, k)
    if k in ("Bool", "String"): return some(c.ret, bycase(c, x, y))
    if k == "Number":
        o = cn.nord(c, x, y, False)
        return none(c.ret) if o is None else some(c.ret, o)
    if k == "Sequence": return cmp_as("seq <=> seq")(c, x, y)
    if k == "Mapping": return M_PCMP(c, x, y)
    return T_PCMP(c, deep(c.run, x), deep(c.run, y))
def total_cmp(c, a, b):
    """by kind, then by content, NaN after every other number; equal exactly for equal values"""
    a, b = deep(c.run, a), deep(c.run, b)
    k, l = c.case(a), c.case(b)
    i, j = KINDS.index(k), KINDS.index(l)
    if i != j: return O("Less" if i < j else "Greater")
    if k == "Null": return O("Equal")
    x, y = cv.pay(c, a, k), cv.pay(c, b, k)
    if k in ("Bool", "String"): return bycase(c, x, y)
    if k == "Number": return cn.nord(c, x, y, True)
    if k == "Tagged":
        x, y = deep(c.run, x), deep(c.run, y)
        o = ct.tag_cmp(c, ct.tv_field(c, x, 0), ct.tv_field(c, y, 0))
        return TOTAL(c, ct.tv_field(c, x, 1), ct.tv_field(c, y, 1)) if o.variant == "Equal" else o
    if k == "Sequence": return lexic(c, deep(c.run, x), deep(c.run, y), TOTAL, "&" + V)
    ea, eb = entries(c, x), entries(c, y)
    return lexic(c, ea, eb, lambda c, p, q: pair_cmp(c, p, q, True), PAIR)
PAIR = "(&value::Value, &value::Value)"
PAIRS = "std::vec::Vec<(&value::Value, &value::Value)>"
def any_pt(c, i, t):
    return c.run.mat(z3.Const("any:%d:%s" % (i, t), sort_of(t)), t)
def pair_cmp(c, p, q, values):
    """by key, then by value"""
    p, q = deep(c.run, p), deep(c.run, q)
    ret, c.ret = c.ret, "std::cmp::Ordering"
    f = lambda x, i: c.field(x, None, i, "&" + V)
    o = TOTAL(c, f(p, 0), f(q, 0))
    if values and c.case(o) == "Equal": o = TOTAL(c, f(p, 1), f(q, 1))
    c.ret = ret
    return o
def entries(c, m):
    """the entries of a mapping in the order of their keys"""
    v = uninterp(c.run, "Vec::from_iter", [deep(c.run, m)], PAIRS)
    return uninterp(c.run, "sort_by", [v, pair_cmp(c, any_pt(c, 0, "&" + PAIR), any_pt(c, 1, "&" + PAIR), False)], PAIRS)
def lexic(c, a, b, cmp, item):
    return uninterp(c.run, "lexicographic", [a, b, cmp(c, any_pt(c, 0, item), any_pt(c, 1, item))], "std::cmp::Ordering")
def lex_call(c, a, b, f):
    item = {"&" + SEQ: "&" + V, PAIRS: PAIR}[c.tys[0]]
    return lexic(c, deep(c.run, a), deep(c.run, b), lambda c, x, y: callv(c, f, [x, y], [item, item], "std::cmp::Ordering"), item)
def m_partial_cmp(c, a, b):
    """the entries in the order of their keys, compared as sequences of pairs"""
    return uninterp(c.run, "seq <=> seq", [entries(c, a), entries(c, b)], c.ret)

IT = "<I as std::iter::IntoIterator>::IntoIter"
def lex(c, a, b, cmp):
    """the first difference decides, then the shorter one is less"""
    i = uninterp(c.run, "IntoIterator::into_iter", [a], IT)
    j = uninterp(c.run, "IntoIterator::into_iter", [b], IT)
    return c.tail("pairs", i, j, cmp)
ITEM = "<I as std::iter::IntoIterator>::Item"
def lex_entry(view):
    """which iterator walks the first argument"""
    cs = view.cells(IT)
    second = [n for n, pls in view.fr.fn.debug.items() if "_2" in pls]
    if len(cs) == 2 and second and str(view.run.term(view.run.load(cs[0]))).endswith("(%s)" % second[0]): cs = cs[::-1]
    view.fr.roles["its"] = cs
def lex_state(view):
    """the iterator over the first argument, that over the second, the comparison"""
    return [view.run.load(x) for x in view.fr.roles["its"]] + [view.run.load(view.var("F"))]
def lex_step(c, args, i, j, cmp):
    i, j, f = c.alloc(i), c.alloc(j), c.alloc(cmp)
    nxt = lambda x: uninterp(c.run, "Iterator::next", [Ref(x, (), "mut", IT)], "std::option::Option<%s>" % ITEM)
    x = nxt(i)
    if c.case(x) == "None":
        return O("Equal" if c.case(nxt(j)) == "None" else "Less")
    y = nxt(j)
    if c.case(y) == "None": return O("Greater")
    o = callv(c, Ref(f, (), "mut", "F"), [c.field(x, "Some", 0, ITEM), c.field(y, "Some", 0, ITEM)], [ITEM, ITEM], "std::cmp::Ordering")
    if c.case(o) != "Equal": return o
    return c.tail("pairs", c.load(i), c.load(j), c.load(f))

def register(R):
    C = ("C05",)
    F = " in src/value/mod.rs"
    R.add("<Value as PartialEq>::eq" + F, v_eq, C + ("C22",), opaque=V_EQ)
    R.add("<Mapping as PartialEq>::eq", m_eq, C, opaque=M_EQ)
    R.add("<TaggedValue as PartialEq>::eq", t_eq, C, opaque=T_EQ)
    R.add("<Value as Hash>::hash", v_hash, C + ("C07",), opaque=V_HASH)
    R.add("<Mapping as Hash>::hash", m_hash, C, opaque=M_HASH,
          loops={0: exe.TailLoop("entries", lambda view: [view.run.load(view.var("u64")), cm.iter_pos(view.run, view.var("mapping::Iter"))], m_hash_step, decreases=cm.left("mapping::Iter"))})
    R.add("<TaggedValue as Hash>::hash", t_hash, C, opaque=T_HASH)
    R.add("<TaggedValue as PartialOrd>::partial_cmp", t_partial_cmp, C, opaque=T_PCMP)
    R.add("<Value as PartialOrd>::partial_cmp", v_partial_cmp, C, opaque=V_PCMP)
    R.add("<Mapping as PartialOrd>::partial_cmp::total_cmp", total_cmp, C, opaque=TOTAL)
    R.add("<Mapping as PartialOrd>::partial_cmp::iter_cmp_by", lex, C, opaque=lex_call,
          loops={0: exe.TailLoop("pairs", lex_state, lex_step, entry=lex_entry)})
    R.add("<Mapping as PartialOrd>::partial_cmp", m_partial_cmp, C, opaque=M_PCMP)
    laws(R)
    R.assume(C, "Vec's PartialEq, PartialOrd and Hash, and IndexMap's PartialEq, are those of their elements (an equivalence, an order, a compatible hash whenever the elements' are)")
    R.assume(C, "sort_by by a total order that is Equal only on equal keys gives equal mappings equal sequences of entries")

# ------------------------------------------------------------------ laws, by induction on the height of the values
def part(c, v, k):
    """the content that is compared by its own relation"""
    x = cv.pay(c, v, k)
    return deep(c.run, x)
def ih(c, vs):
    """induction hypothesis: the relations of the parts are equivalences"""
    for i, v in enumerate(vs):
        ks = c.case(v)
    k = c.case(vs[0])
    if any(c.case(v) != k for v in vs) or k not in ("Sequence", "Mapping", "Tagged"): return
    rel = {"Sequence": eq_app, "Mapping": M_EQ, "Tagged": T_EQ}[k]
    ps = [part(c, v, k) for v in vs]
    hyp(c, lambda x, y: rel(c, x, y), ps)
def hyp(c, rel, ps):
    for x in ps:
        c.assume(rel(x, x))
        for y in ps:
            c.assume(rel(x, y) == rel(y, x))
            for z in ps:
                c.assume(z3.Implies(z3.And(rel(x, y), rel(y, z)), rel(x, z)))
def laws(R):
    def wellformed(c, *vs):
        for v in vs:
            if c.case(v) == "Number": c.assume(cn.num_inv(c.run, cv.pay(c, v, "Number")))
    def three(c):
        vs = [c.const(n, V) for n in "abd"]
        wellformed(c, *vs)
        return vs
    def equivalence(c):
        a, b, d = three(c)
        ih(c, [a, b, d]) 
        for p, q in ((a, b), (b, d), (a, d)):
            if c.case(p) == c.case(q): ih(c, [p, q])
        ih(c, [a])
        ab = v_eq(c, a, b)
        c.oblige("reflexive", v_eq(c, a, a))
        c.oblige("symmetric", ab == v_eq(c, b, a))
        c.oblige("transitive", z3.Implies(z3.And(ab, v_eq(c, b, d)), v_eq(c, a, d)))
    R.lemma("Value: equality is an equivalence", ("C05",), equivalence, cost=2)
    def tv(c, n): return c.const(n, TAGGED)
    def t_equivalence(c):
        a, b, d = tv(c, "a"), tv(c, "b"), tv(c, "d")
        hyp(c, lambda x, y: V_EQ(c, x, y), [ct.tv_field(c, t, 1) for t in (a, b, d)])
        c.oblige("reflexive", t_eq(c, a, a))
        ab = t_eq(c, a, b)
        c.oblige("symmetric", ab == t_eq(c, b, a))
        c.oblige("transitive", z3.Implies(z3.And(ab, t_eq(c, b, d)), t_eq(c, a, d)))
    R.lemma("TaggedValue: equality is an equivalence", ("C05",), t_equivalence)
    def states(c):
        h = c.const("h", "H")
        return [Ref(c.alloc(h), (), "mut", "H") for _ in range(2)]
    def hashes(c):
        a, b = c.const("a", V), c.const("b", V)
        wellformed(c, a, b)
        c.assume(v_eq(c, a, b))
        h, g = states(c)
        k = c.case(a)
        v_hash(c, a, h); v_hash(c, b, g)
        if k in ("Sequence", "Mapping", "Tagged"):
            rel = {"Sequence": eq_app, "Mapping": M_EQ, "Tagged": T_EQ}[k]
            key = {"Sequence": "hash:seq", "Mapping": "hash(Mapping)", "Tagged": "hash(TaggedValue)"}[k]
            x, y = part(c, a, k), part(c, b, k)
            p, q = states(c)
            feed(c, "hash:discriminant", c.run.discr(a), p); feed(c, "hash:discriminant", c.run.discr(b), q)
            feed(c, key, x, p); feed(c, key, y, p if False else q)
            r, s = states(c)
            feed(c, "hash:discriminant", c.run.discr(a), r); feed(c, "hash:discriminant", c.run.discr(a), s)
            feed(c, key, x, r); feed(c, key, y, s)
            c.assume(z3.Implies(rel(c, x, y), c.run.eq(c.load(r.cell), c.load(s.cell))))
        c.oblige("equal values leave the hasher in equal states", c.run.eq(c.load(h.cell), c.load(g.cell)))
    R.lemma("Value: equal values hash alike", ("C05", "C07"), hashes)
    def t_hashes(c):
        a, b = tv(c, "a"), tv(c, "b")
        c.assume(t_eq(c, a, b))
        h, g = states(c)
        x, y = ct.tv_field(c, a, 1), ct.tv_field(c, b, 1)
        r, s = states(c)
        ct.tag_hash(c, ct.tv_field(c, a, 0), r); ct.tag_hash(c, ct.tv_field(c, a, 0), s)
        V_HASH(c, x, r); V_HASH(c, y, s)
        c.assume(z3.Implies(V_EQ(c, x, y), c.run.eq(c.load(r.cell), c.load(s.cell))))
        t_hash(c, a, h); t_hash(c, b, g)
        c.oblige("equal values leave the hasher in equal states", c.run.eq(c.load(h.cell), c.load(g.cell)))
    R.lemma("TaggedValue: equal values hash alike", ("C05",), t_hashes)
    def xor(c):
        x, f, g = [z3.BitVec(n, 64) for n in "xfg"]
        c.oblige("two entries may be hashed in either order", (x ^ f) ^ g == (x ^ g) ^ f)
    R.lemma("Mapping: the hash does not depend on the order of the entries", ("C05", "C07"), xor)
    def ovar(c, o):
        """None or the Ordering's name"""
        if isinstance(o, Adt) and o.ty.startswith("std::option"):
            return "None" if o.variant == "None" else c.case(o.fields[0])
        if isinstance(o, Sym) and o.ty.startswith("std::option"):
            return "None" if c.case(o) == "None" else c.case(c.field(o, "Some", 0, "std::cmp::Ordering"))
        return c.case(o)
    FLIP = {"Less": "Greater", "Greater": "Less"}
    def str_order(c, vs):
        """the order of texts is a strict total order (std)"""
        ts = [cv.pay(c, v, "String") for v in vs if c.case(v) == "String"]
        str_hyp(c, ts)
    def str_hyp(c, ts):
        lt = lib.str_lt
        for x in ts:
            for y in ts:
                c.assume(z3.Implies(x != y, lt(x, y) == z3.Not(lt(y, x))))
                for z in ts:
                    c.assume(z3.Implies(z3.And(lt(x, y), lt(y, z), x != y, y != z), z3.And(lt(x, z), x != z)))
    def laws_of(c, say, cmp, eq, vs, total=False):
        """two values: antisymmetry, agreement with equality; three: transitivity"""
        if len(vs) == 2:
            a, b = vs
            ab, ba = ovar(c, cmp(a, b)), ovar(c, cmp(b, a))
            say("antisymmetric", z3.BoolVal(ba == FLIP.get(ab, ab)))
            if eq is not None: say("Equal exactly for equal values", z3.BoolVal(ab == "Equal") == eq(a, b))
            if total: say("total", z3.BoolVal(ab != "None"))
            return
        a, b, d = vs
        ab = ovar(c, cmp(a, b))
        if ab == "None": return
        bd = ovar(c, cmp(b, d))
        if bd == "None" and ab != "Equal" or ab != bd and "Equal" not in (ab, bd): return
        say("transitive", z3.BoolVal(ovar(c, cmp(a, d)) == (bd if ab == "Equal" else ab)))
    def check(c, *a, **kw): laws_of(c, c.oblige, *a, **kw)
    def given(c, *a, **kw): laws_of(c, lambda n, f: c.assume(f), *a, **kw)
    def order(total, n):
        def f(c):
            vs = [c.const(x, V) for x in "abd"[:n]]
            wellformed(c, *vs)
            str_order(c, vs)
            c.ret = "std::cmp::Ordering" if total else OORD
            cmp = total_cmp if total else v_partial_cmp
            ks = [c.case(v) for v in vs]
            if ks == ["Number"] * 3: return               # the lemma on Number
            for v in {"Sequence", "Mapping", "Tagged"} & {k for k in ks if ks.count(k) > 1}:
                if v == "Tagged" and total: continue
                ps = [part(c, x, v) for x, k in zip(vs, ks) if k == v]
                rel = {"Sequence": eq_app, "Mapping": M_EQ, "Tagged": T_EQ}[v]
                if total: rc = lambda x, y: lexic(c, x, y, TOTAL, "&" + V) if v == "Sequence" else lexic(c, entries(c, x), entries(c, y), lambda c, p, q: pair_cmp(c, p, q, True), PAIR)
                else: rc = lambda x, y: dict(Sequence=cmp_as("seq <=> seq"), Mapping=M_PCMP, Tagged=T_PCMP)[v](c, x, y)
                if v == "Mapping" and total: return       # over sorted entries: assumed of sort_by
                given(c, rc, lambda x, y: rel(c, x, y), ps)
            if total and ks.count("Tagged") > 1:
                ps = [ct.tv_field(c, part(c, x, "Tagged"), 1) for x, k in zip(vs, ks) if k == "Tagged"]
                str_hyp(c, [ct.name(c, ct.tv_field(c, part(c, x, "Tagged"), 0)) for x, k in zip(vs, ks) if k == "Tagged"])
                given(c, lambda x, y: TOTAL(c, x, y), None, ps)
            check(c, lambda x, y: cmp(c, x, y), None if "Tagged" in ks and total else lambda x, y: v_eq(c, x, y), vs, total=total)
        return f
    for total, n in ((False, "partial"), (True, "total")):
        R.lemma("Value: the %s order is antisymmetric and agrees with equality" % n, ("C05",), order(total, 2))
        R.lemma("Value: the %s order is transitive" % n, ("C05",), order(total, 3), cost=4)
    def t_order(n):
        def f(c):
            vs = [tv(c, x) for x in "abd"[:n]]
            c.ret = OORD
            str_hyp(c, [ct.name(c, ct.tv_field(c, t, 0)) for t in vs])
            ps = [ct.tv_field(c, t, 1) for t in vs]
            given(c, lambda x, y: V_PCMP(c, x, y), lambda x, y: V_EQ(c, x, y), ps)
            check(c, lambda x, y: t_partial_cmp(c, x, y), lambda x, y: t_eq(c, x, y), vs)
        return f
    R.lemma("TaggedValue: the order is antisymmetric and agrees with equality", ("C05",), t_order(2))
    R.lemma("TaggedValue: the order is transitive", ("C05",), t_order(3))
    def lex_law(c):
        """one step of the lexicographic comparison keeps antisymmetry and agreement with equality"""
        i = [c.branch(z3.Bool("a ends")), c.branch(z3.Bool("b ends"))]
        first = c.choose([z3.Bool("lt"), z3.And(z3.Not(z3.Bool("lt")), z3.Bool("e")), z3.And(z3.Not(z3.Bool("lt")), z3.Not(z3.Bool("e")))])
        rest = c.choose([z3.Bool("lt2"), z3.And(z3.Not(z3.Bool("lt2")), z3.Bool("e2")), z3.And(z3.Not(z3.Bool("lt2")), z3.Not(z3.Bool("e2")))])
        N = ["Less", "Equal", "Greater"]
        def step(i, first, rest):
            if i[0]: return "Equal" if i[1] else "Less"
            if i[1]: return "Greater"
            return N[first] if N[first] != "Equal" else N[rest]
        ab = step(i, first, rest)
        ba = step(i[::-1], 2 - first, 2 - rest)
        c.oblige("antisymmetric", z3.BoolVal(ba == FLIP.get(ab, ab)))
        c.oblige("Equal exactly for both at the end or equal heads and tails", z3.BoolVal((ab == "Equal") == (i == [True, True] or i == [False, False] and first == 1 and rest == 1)))
    R.lemma("lexicographic order: one step keeps the laws", ("C05",), lex_law)
