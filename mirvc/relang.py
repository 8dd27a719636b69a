"""A decision procedure for conditions on one string: boolean combinations of
regular memberships, decided by derivatives.  Conditions it cannot translate
are left to the SMT solvers."""
import z3

MAXC = 255
# ------------------------------------------------------------------ hash-consed regexes over bytes
_tab = {}
class Re:
    __slots__ = ("k", "a", "null", "id", "_cls", "_der")
def _mk(k, a, null):
    key = (k, a)
    r = _tab.get(key)
    if r is None:
        r = Re(); r.k, r.a, r.null, r.id = k, a, null, len(_tab)
        r._cls = None; r._der = {}
        _tab[key] = r
    return r

EMPTY = _mk("empty", (), False)
EPS = _mk("eps", (), True)
def cls(ivs):
    """character class: sorted disjoint intervals"""
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi: continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    if not out: return EMPTY
    return _mk("cls", tuple(out), False)
ANY = cls([(0, MAXC)])
def star(r):
    if r is EMPTY or r is EPS: return EPS
    if r.k == "star": return r
    return _mk("star", (r,), True)
ALL = star(ANY)
def cat2(x, y):
    if x is EMPTY or y is EMPTY: return EMPTY
    if x is EPS: return y
    if y is EPS: return x
    if x.k == "cat":
        return cat2(x.a[0], cat2(x.a[1], y))
    return _mk("cat", (x, y), x.null and y.null)
def cat(*rs):
    r = EPS
    for x in reversed(rs): r = cat2(x, r)
    return r
def alt(*rs):
    s = set()
    cl = []
    for r in rs:
        for x in (r.a if r.k == "alt" else (r,)):
            if x is EMPTY: continue
            if x is ALL: return ALL
            if x.k == "cls": cl += x.a
            else: s.add(x)
    if cl: s.add(cls(cl))
    for x in s:
        if x.k == "not" and x.a[0] in s: return ALL
    if not s: return EMPTY
    if len(s) == 1: return next(iter(s))
    a = tuple(sorted(s, key=lambda r: r.id))
    return _mk("alt", a, any(x.null for x in a))
def conj(*rs):
    s = set()
    for r in rs:
        for x in (r.a if r.k == "and" else (r,)):
            if x is EMPTY: return EMPTY
            if x is ALL: continue
            s.add(x)
    for x in s:
        if x.k == "not" and x.a[0] in s: return EMPTY
    if not s: return ALL
    if len(s) == 1: return next(iter(s))
    a = tuple(sorted(s, key=lambda r: r.id))
    return _mk("and", a, all(x.null for x in a))
def neg(r):
    if r.k == "not": return r.a[0]
    if r is EMPTY: return ALL
    if r is ALL: return EMPTY
    return _mk("not", (r,), not r.null)
def lit(b):
    return cat(*[cls([(x, x)]) for x in b])
def rep(r, n):
    return cat(*[r] * n)
def plus(r): return cat(r, star(r))

def classes(r):
    """partition of the alphabet on which the derivative is constant: sorted starts"""
    if r._cls is not None: return r._cls
    k = r.k
    if k in ("empty", "eps"): c = (0,)
    elif k == "cls":
        c = {0}
        for lo, hi in r.a:
            c.add(lo)
            if hi < MAXC: c.add(hi + 1)
        c = tuple(sorted(c))
    elif k == "cat":
        c = classes(r.a[0])
        if r.a[0].null: c = tuple(sorted(set(c) | set(classes(r.a[1]))))
    else:
        c = tuple(sorted(set().union(*[classes(x) for x in r.a])))
    r._cls = c
    return c

def der(r, ch):
    d = r._der.get(ch)
    if d is not None: return d
    k = r.k
    if k in ("empty", "eps"): d = EMPTY
    elif k == "cls": d = EPS if any(lo <= ch <= hi for lo, hi in r.a) else EMPTY
    elif k == "cat":
        d = cat2(der(r.a[0], ch), r.a[1])
        if r.a[0].null: d = alt(d, der(r.a[1], ch))
    elif k == "star": d = cat2(der(r.a[0], ch), r)
    elif k == "alt": d = alt(*[der(x, ch) for x in r.a])
    elif k == "and": d = conj(*[der(x, ch) for x in r.a])
    elif k == "not": d = neg(der(r.a[0], ch))
    r._der[ch] = d
    return d

def witness(r, limit=20000):
    """a shortest member (bytes), or None if the language is empty; raises on the state limit"""
    if r is EMPTY: return None
    seen = {r: None}
    work = [r]
    i = 0
    while i < len(work):
        q = work[i]; i += 1
        if q.null:
            out = []
            while seen[q] is not None:
                q, ch = seen[q]
                out.append(ch)
            return bytes(reversed(out))
        if i > limit:
            raise OverflowError("regular language too large")
        for ch in classes(q):
            d = der(q, ch)
            if d is EMPTY or d in seen: continue
            seen[d] = (q, ch); work.append(d)
    return None

_empty = {}
def is_empty(r):
    e = _empty.get(r)
    if e is None:
        e = _empty[r] = witness(r) is None
    return e

# ------------------------------------------------------------------ from z3
class No(Exception):
    pass

_fromre = {}
def from_re(e):
    k = e.get_id()
    c = _fromre.get(k)
    if c is not None and c[0].eq(e): return c[1]
    r = _from_re(e)
    _fromre[k] = (e, r)
    return r

def strlit(e):
    from vc import sval
    b = sval(e)
    if b is None: raise No()
    return b

def _from_re(e):
    d = e.decl().kind()
    ch = [e.arg(i) for i in range(e.num_args())]
    if d == z3.Z3_OP_SEQ_TO_RE: return lit(strlit(ch[0]))
    if d == z3.Z3_OP_RE_UNION: return alt(*map(from_re, ch))
    if d == z3.Z3_OP_RE_CONCAT: return cat(*map(from_re, ch))
    if d == z3.Z3_OP_RE_STAR: return star(from_re(ch[0]))
    if d == z3.Z3_OP_RE_PLUS: return plus(from_re(ch[0]))
    if d == z3.Z3_OP_RE_OPTION: return alt(EPS, from_re(ch[0]))
    if d == z3.Z3_OP_RE_COMPLEMENT: return neg(from_re(ch[0]))
    if d == z3.Z3_OP_RE_INTERSECT: return conj(*map(from_re, ch))
    if d == z3.Z3_OP_RE_RANGE:
        a, b = strlit(ch[0]), strlit(ch[1])
        if len(a) != 1 or len(b) != 1: raise No()
        return cls([(a[0], b[0])])
    if d == z3.Z3_OP_RE_FULL_SET: return ALL
    if d == z3.Z3_OP_RE_FULL_CHAR_SET: return ANY
    if d == z3.Z3_OP_RE_EMPTY_SET: return EMPTY
    raise No()

def view(t):
    """string term -> (base, [ops]); ops turn a language of t into one of the base.
    base is an opaque string term"""
    d = t.decl().kind()
    if z3.is_string_value(t):
        raise No()
    if d == z3.Z3_OP_SEQ_EXTRACT:
        s, o, n = t.arg(0), z3.simplify(t.arg(1)), z3.simplify(t.arg(2))
        if z3.is_int_value(o):
            k = o.as_long()
            want = z3.simplify(z3.Length(s) - k)
            if n.eq(want):
                b, ops = view(s)
                return b, ops + [("drop", k)]
            if z3.is_int_value(n) and n.as_long() == 1:
                b, ops = view(s)
                return b, ops + [("at", k)]
            # all but the last m
            w = z3.simplify(z3.Length(s) - k - n)
            if z3.is_int_value(w) and w.as_long() >= 0 and k == 0:
                b, ops = view(s)
                return b, ops + [("chop", w.as_long())]
        return t, []
    if d == z3.Z3_OP_SEQ_CONCAT:
        cs = [t.arg(i) for i in range(t.num_args())]
        if all(z3.is_string_value(x) for x in cs[:-1]):
            b, ops = view(cs[-1])
            return b, ops + [("pre", b"".join(strlit(x) for x in cs[:-1]))]
        if all(z3.is_string_value(x) for x in cs[1:]):
            b, ops = view(cs[0])
            return b, ops + [("post", b"".join(strlit(x) for x in cs[1:]))]
    return t, []

def rev(r):
    k = r.k
    if k in ("empty", "eps", "cls"): return r
    if k == "cat": return cat(rev(r.a[1]), rev(r.a[0]))
    if k == "star": return star(rev(r.a[0]))
    if k == "alt": return alt(*map(rev, r.a))
    if k == "and": return conj(*map(rev, r.a))
    return neg(rev(r.a[0]))

def upto(n):
    r = EPS
    for _ in range(n): r = alt(EPS, cat(ANY, r))
    return r

def lift(ops, L):
    for op, a in reversed(ops):
        if op == "drop":
            L2 = cat(rep(ANY, a), L)
            if L.null and a > 0: L2 = alt(L2, upto(a - 1))
            L = L2
        elif op == "at":
            one = conj(L, ANY)
            L2 = cat(rep(ANY, a), one, ALL)
            if L.null: L2 = alt(L2, upto(a))
            L = L2
        elif op == "chop":
            L2 = cat(L, rep(ANY, a))
            if L.null and a > 0: L2 = alt(L2, upto(a - 1))
            L = L2
        elif op == "pre":
            for ch in a: L = der(L, ch)
        elif op == "post":
            R = rev(L)
            for ch in reversed(a): R = der(R, ch)
            L = rev(R)
    return L

def atom(t, L):
    b, ops = view(t)
    return b, lift(ops, L)

def cmp_set(op, c):
    """naturals n (n >= -1 for codes) with n op c, as a predicate"""
    return {z3.Z3_OP_LE: lambda n: n <= c, z3.Z3_OP_LT: lambda n: n < c, z3.Z3_OP_GE: lambda n: n >= c, z3.Z3_OP_GT: lambda n: n > c, z3.Z3_OP_EQ: lambda n: n == c}[op]

FLIP = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_EQ: z3.Z3_OP_EQ}

def cond(e):
    """boolean term -> (base or None, language of the base where it holds)"""
    d = e.decl().kind()
    ch = [e.arg(i) for i in range(e.num_args())]
    if d == z3.Z3_OP_TRUE: return None, ALL
    if d == z3.Z3_OP_FALSE: return None, EMPTY
    if d == z3.Z3_OP_NOT:
        b, L = cond(ch[0])
        return b, neg(L)
    if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or d == z3.Z3_OP_EQ and z3.is_bool(ch[0]) or d == z3.Z3_OP_ITE and z3.is_bool(ch[1]):
        xs = [cond(x) for x in ch]
        base = None
        for b, _ in xs:
            if b is not None:
                if base is not None and not base.eq(b): raise No()
                base = b
        Ls = [L for _, L in xs]
        if d == z3.Z3_OP_AND: return base, conj(*Ls)
        if d == z3.Z3_OP_OR: return base, alt(*Ls)
        if d == z3.Z3_OP_IMPLIES: return base, alt(neg(Ls[0]), Ls[1])
        if d == z3.Z3_OP_ITE: return base, alt(conj(Ls[0], Ls[1]), conj(neg(Ls[0]), Ls[2]))
        eq = alt(conj(Ls[0], Ls[1]), conj(neg(Ls[0]), neg(Ls[1])))
        return base, (eq if d == z3.Z3_OP_EQ else neg(eq))
    if d == z3.Z3_OP_SEQ_IN_RE:
        return atom(ch[0], from_re(ch[1]))
    if d == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(ch[0]):
        return atom(ch[1], cat(lit(strlit(ch[0])), ALL))
    if d == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(ch[0]):
        return atom(ch[1], cat(ALL, lit(strlit(ch[0]))))
    if d == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(ch[1]):
        return atom(ch[0], cat(ALL, lit(strlit(ch[1])), ALL))
    if d == z3.Z3_OP_EQ and ch[0].sort() == z3.StringSort():
        a, b = ch
        if z3.is_string_value(a): a, b = b, a
        if z3.is_string_value(b) and not z3.is_string_value(a): return atom(a, lit(strlit(b)))
        raise No()
    if d in FLIP and ch[0].sort() == z3.IntSort():
        a, b = z3.simplify(ch[0]), z3.simplify(ch[1])
        if z3.is_int_value(a): a, b, d = b, a, FLIP[d]
        if not z3.is_int_value(b): raise No()
        c = b.as_long()
        # a may be length/code plus a constant
        if a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            c -= a.arg(0).as_long(); a = a.arg(1)
        p = cmp_set(d, c)
        k = a.decl().kind()
        if k == z3.Z3_OP_SEQ_LENGTH:
            # lengths up to c+1 decide
            m = max(c, 0) + 1
            if m > 64: raise No()
            L = alt(*[rep(ANY, n) for n in range(m + 1) if p(n)] + ([cat(rep(ANY, m), ALL)] if p(m + 1) else []))
            return atom(a.arg(0), L)
        if k == z3.Z3_OP_STR_TO_CODE:
            L = cls([(n, n) for n in range(MAXC + 1) if p(n)])
            one = neg(ANY) if p(-1) else EMPTY        # not a single character: -1
            return atom(a.arg(0), alt(L, one))
    raise No()
