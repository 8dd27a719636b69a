"""Verification-condition generator: symbolic execution of MIR against specs.

Every run re-executes one function body (plus inlined, contract-less local
callees) along one decision sequence; `Explorer` enumerates all of them.
Calls to functions that have a contract are replaced by the contract.
"""
import re, time, sys
import z3
import mir as M
import relang
from mir import norm_ty, short, refshort, strip_generics, last_generics, split_top, INTTY, match_close, strip_ty_generics

sys.setrecursionlimit(20000)

U = z3.DeclareSort("U")
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
F64, F32 = z3.Float64(), z3.Float32()

class Unsupported(Exception):
    pass
class PathEnd(Exception):
    """path stops (loop back edge, infeasible)"""
class Panic(Exception):
    def __init__(self, why):
        self.why = why

# ------------------------------------------------------------------ values
class Adt:
    __slots__ = ("ty", "variant", "fields")
    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, list(fields)
    def __repr__(self):
        return "%s%s(%s)" % (short(self.ty) if self.ty else "", "::" + self.variant if self.variant else "", ", ".join(map(repr, self.fields)))

class Sym:
    """value of an opaque or not yet expanded type, named by a term of sort U"""
    __slots__ = ("term", "ty", "over")
    def __init__(self, term, ty, over=None):
        self.term, self.ty, self.over = term, ty, over or {}
    def __repr__(self):
        return "Sym(%s:%s%s)" % (self.term, self.ty, " +%s" % self.over if self.over else "")

class Ref:
    __slots__ = ("cell", "path", "kind", "ty")
    def __init__(self, cell, path, kind, ty):
        self.cell, self.path, self.kind, self.ty = cell, tuple(path), kind, ty   # ty: pointee type
    def __repr__(self):
        return "&%s%s%s" % (self.kind + " ", self.cell, self.path or "")

class FnDef:
    __slots__ = ("path",)
    def __init__(self, path):
        self.path = path
    def __repr__(self):
        return "fn " + self.path

# type invariants kept by the module that owns the (private) representation; its constructors are under contract
TYPE_INV = {}

# Structs that hold &mut to other state: type -> (source file, [(field name, type, mode)]).
# mode says what code that is handed the struct by &mut may change: "const" nothing (its own methods restore it or
# never touch it: each of them is verified to), "mut" the field, "deref" what the field points to.
# Passed to an opaque function they count with everything they reach.
STRUCTS = {}
# facts every value of such a struct satisfies: type -> f(run, value) -> [formula]
STRUCT_INV = {}

UNIT = Adt("()", None, [])
def is_z3(v):
    return isinstance(v, z3.ExprRef)

BUILTIN_ENUMS = {
    "Option": ["None", "Some"], "Result": ["Ok", "Err"], "ControlFlow": ["Continue", "Break"],
    "Ordering": ["Less", "Equal", "Greater"], "FpCategory": ["Nan", "Infinite", "Zero", "Subnormal", "Normal"], "Cow": ["Borrowed", "Owned"],
    "Bound": ["Included", "Excluded", "Unbounded"],
    "Infallible": [],
}
EXT_ENUMS = {"indexmap::map::Entry": ["Occupied", "Vacant"],
             "serde::de::Unexpected": ["Bool", "Unsigned", "Signed", "Float", "Char", "Str", "Bytes", "Unit", "Option", "NewtypeStruct", "Seq", "Map", "Enum", "UnitVariant", "NewtypeVariant", "TupleVariant", "StructVariant", "Other"]}

STRTY = {"str", "&str", "&mut str", "String", "std::string::String", "[u8]", "&[u8]", "std::vec::Vec<u8>", "std::boxed::Box<str>",
         "std::boxed::Box<[u8]>", "&mut [u8]", "Box<str>", "Box<[u8]>", "Vec<u8>"}

_fncache = {}
def fn(name, argsorts, res):
    k = (name, tuple(str(s) for s in argsorts), str(res))
    f = _fncache.get(k)
    if f is None:
        nm = name if k not in _fncache else name
        f = z3.Function("%s#%s" % (name, len([1 for q in _fncache if q[0] == name])), *argsorts, res)
        _fncache[k] = f
    return f

def sort_of(ty):
    ty = ty.strip()
    if ty in INTTY:
        return INT
    if ty == "bool":
        return BOOL
    if ty in STRTY:
        return STR
    if ty == "f64":
        return F64
    if ty == "f32":
        return F32
    return U

BYTEPTRS = {"*const u8", "*mut u8", "*const i8", "*mut i8"}
def is_ref_ty(ty):
    return ty not in BYTEPTRS and (ty.startswith("&") or ty.startswith("*const ") or ty.startswith("*mut ") or is_box(ty) or ty.startswith("std::sync::Arc<")) and ty not in STRTY

def is_box(ty):
    return ty.startswith("std::boxed::Box<") or ty.startswith("Box<") or ty.startswith("libyaml::util::Owned<")

def pointee(ty):
    if ty.startswith("&mut "):
        return ty[5:].strip()
    if ty.startswith("&"):
        return ty[1:].strip()
    if ty.startswith("*const "):
        return ty[7:]
    if ty.startswith("*mut "):
        return ty[5:]
    if ty.startswith("libyaml::util::Owned<"):
        return split_top(ty[ty.index("<") + 1:-1])[-1]
    if is_box(ty) or ty.startswith("std::sync::Arc<"):
        return split_top(ty[ty.index("<") + 1:-1])[0]
    raise Unsupported("pointee of " + ty)

def ty_args(ty):
    """generic args of a type"""
    if not ty.endswith(">"):
        return []
    i = ty.index("<")
    return split_top(ty[i + 1:-1])

def tuple_tys(ty):
    return split_top(ty[1:-1])

def S(b):
    """z3 string value holding bytes"""
    if isinstance(b, str):
        b = b.encode("utf8")
    out = []
    for x in b:
        if 32 <= x < 127 and x != 92:
            out.append(chr(x))
        else:
            out.append("\\u{%x}" % x)
    return z3.StringVal("".join(out))

def sval(e):
    """python bytes of a z3 string literal, else None"""
    if z3.is_string_value(e):
        s = e.as_string()
        out = bytearray(); i = 0
        while i < len(s):
            if s.startswith("\\u{", i):
                j = s.index("}", i)
                out.append(int(s[i + 3:j], 16) & 0xFF); i = j + 1
            elif s.startswith("\\x", i):
                out.append(int(s[i+2:i+4], 16)); i += 4
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)
    return None

_biglen = {}
def give(run, h):
    for a in h[2]: run.axiom(a)
    return h[1]

def biglen(run, c):
    """conditions that compare a string's length with a number around 2^31 speak of an opaque length: z3 cannot build such strings"""
    if not z3.is_expr(c): return c
    h = _biglen.get(c.get_id())
    if h is not None and h[0].eq(c): return give(run, h)
    lens, big, seen, todo = [], False, set(), [c]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_int_value(x):
            big = big or 2**12 <= abs(x.as_long()) < 2**40
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SEQ_LENGTH: lens.append(x)
            todo += x.children()
    ops = [(x, fn("length (opaque)", [x.arg(0).sort()], INT)(x.arg(0))) for x in lens] if big else []
    h = _biglen[c.get_id()] = (c, z3.substitute(c, *ops) if ops else c, [o >= 0 for x, o in ops])
    return give(run, h)

def scheck(s, *a):
    """z3 gives up by an exception where a string would have to be very long"""
    try:
        return s.check(*a)
    except z3.Z3Exception:
        return z3.unknown

# ------------------------------------------------------------------ named predicates / definitions
BYTE_AT = None
DEFS = {}    # function decl name -> python callable giving the defining axiom for given args
def defined(name, argsorts, res, body):
    """an opaque symbol whose definition is revealed only when needed"""
    f = z3.Function(name, *argsorts, res)
    DEFS[name] = (f, body)
    return f

# ------------------------------------------------------------------ explorer
class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0

class Run:
    """one path"""
    def __init__(self, ex, decisions):
        self.ex = ex
        self.dec = list(decisions); self.di = 0
        self.pc = []
        self.mem = {}
        self.nfresh = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.feas_ms)
        self.axset = set()
        self.imprecise = []
        self.obls = []
        self.frames = []
        self.trace = []
        self.muttag = 0
        self.seqdef = {}
        self.pushes = {}              # vectors made by a push: term -> (the one before, what was pushed, where)
        self.idxterm = {}
        self.boxcells = set()
        self.matinit = {}       # value every lazily created pointee started with
        self.upd = {}
        self.lang = {}          # string variable -> (term, regular language it is known to be in)
        self.strpc = set()      # path conditions that are accounted for there

    def copy_state(self, x):
        return x

    # --- fresh
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    def axiom(self, a):
        a = biglen(self, a)
        k = a.get_id()
        if k not in self.axset:
            self.axset.add(k)
            self.pc.append(a); self.solver.add(a)

    def assume(self, c):
        c = biglen(self, z3.simplify(c)) if is_z3(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        r = self.regular(c)
        if r is not None:
            b, L = r
            L = relang.conj(self.lang[b.get_id()][1], L) if b.get_id() in self.lang else L
            self.lang[b.get_id()] = (b, L)
            self.strpc.add(c.get_id())
            if relang.is_empty(L):
                raise PathEnd()
        else:
            self.solver.add(c)

    def regular(self, c):
        """(string variable, language) when c is a regular condition on one string"""
        if not has_str(c):
            return None
        try:
            b, L = relang.cond(c)
            return (b, L) if b is not None else None
        except (relang.No, OverflowError):
            return None

    def feasible(self, c):
        c = biglen(self, c)
        r = self.regular(c)
        if r is not None:
            b, L = r
            if b.get_id() in self.lang:
                L = relang.conj(self.lang[b.get_id()][1], L)
            try:
                return not relang.is_empty(L)
            except OverflowError:
                return True
        self.ex.stats.queries += 1
        t = time.time()
        r = scheck(self.solver, c)
        self.ex.stats.time += time.time() - t
        return r != z3.unsat

    def branch(self, c, why=""):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)], why) == 0

    def choose(self, conds, why=""):
        """pick one of the (exhaustive, exclusive) conditions; forks"""
        conds = [z3.simplify(c) if is_z3(c) else z3.BoolVal(bool(c)) for c in conds]
        for i, c in enumerate(conds):
            if z3.is_true(c):
                return i
        if self.di < len(self.dec):
            i = self.dec[self.di]; self.di += 1
            self.assume(conds[i])
            return i
        feas = [i for i, c in enumerate(conds) if not z3.is_false(c) and self.feasible(c)]
        if not feas:
            raise PathEnd()
        for i in feas[1:]:
            self.ex.work.append(self.dec[:self.di] + [i])
        self.dec.append(feas[0]); self.di += 1
        self.assume(conds[feas[0]])
        return feas[0]

    # --- symbolic values
    def app(self, name, args, res):
        """uninterpreted application on z3 args"""
        return fn(name, [a.sort() for a in args], res)(*args)

    def mat(self, term, ty):
        """value of type ty denoted by a term of the right sort"""
        ty = ty.strip()
        if ty in INTTY:
            lo, hi = INTTY[ty]
            self.axiom(z3.And(term >= lo, term <= hi)) if not z3.is_int_value(term) else None
            return term
        s = sort_of(ty)
        if s != U:
            return term
        if ty == "()":
            return UNIT
        if is_ref_ty(ty):
            cell = ("d", term.sexpr() if term.num_args() else str(term))
            pt = pointee(ty)
            if is_box(ty):
                self.boxcells.add(cell)
            if cell not in self.mem:
                self.mem[cell] = self.matinit[cell] = self.mat(self.app("deref", [term], sort_of(pt)), pt)
            return Ref(cell, (), "mut" if ty.startswith("&mut ") else ("box" if is_box(ty) else "shared"), pt)
        if ty.startswith("(") and ty.endswith(")"):
            return Adt(ty, None, [self.mat(self.app("t%d" % i, [term], sort_of(t)), t) for i, t in enumerate(tuple_tys(ty))])
        return Sym(term, ty)

    def new(self, name, ty):
        """fresh symbolic value"""
        self.nfresh += 1
        return self.mat(z3.Const("%s!%d" % (name, self.nfresh), sort_of(ty)), ty)

    def const(self, name, ty):
        return self.mat(z3.Const(name, sort_of(ty)), ty)

    def app_val(self, name, args, ty):
        """uninterpreted function value with python value args -> value of type ty"""
        return self.mat(self.app(name, [self.term(a) for a in args], sort_of(ty)), ty)

    def field(self, v, variant, i, ty):
        if isinstance(v, Adt):
            if variant is not None and v.variant is not None and v.variant != variant:
                raise PathEnd()
            if i >= len(v.fields):
                raise Unsupported("field %d of %r" % (i, v))
            return v.fields[i]
        if isinstance(v, Ref) and v.kind == "box":
            return v       # Box's Unique/NonNull wrappers
        if isinstance(v, Sym):
            k = (variant, i)
            if k in v.over:
                return v.over[k]
            u = self.upd.get(v.term.get_id())
            if u is not None:
                return self.field(u, variant, i, ty)
            r = self.mat(self.app("%s.%d" % (variant or "", i), [v.term], sort_of(ty)), ty)
            inv = TYPE_INV.get(short(v.ty)) if v.ty else None
            if inv is not None:
                inv(self, v, variant, i, r)
            return r
        raise Unsupported("field of %r" % (v,))

    def set_field(self, v, variant, i, x):
        if isinstance(v, Adt):
            fs = list(v.fields); fs[i] = x
            return Adt(v.ty, v.variant, fs)
        if isinstance(v, Sym):
            o = dict(v.over); o[(variant, i)] = x
            return Sym(v.term, v.ty, o)
        raise Unsupported("set_field of %r" % (v,))

    # --- structs of mutable references
    def fidx(self, ty, name):
        t = strip_ty_generics(ty)
        rel = STRUCTS[t][0]
        try:
            return self.ex.prog.field_index(t.split("::")[-1], name, rel)
        except M.MirError as e:
            raise Unsupported("lost anchor: " + str(e))

    def sfields(self, v):
        t = strip_ty_generics(v.ty)
        return [(n, self.fidx(t, n), ty, m) for n, ty, m in STRUCTS[t][1]]

    def struct_term(self, v):
        ts = []
        for n, i, ty, m in self.sfields(v):
            x = self.field(v, None, i, ty)
            ts.append(self.term(self.load(x.cell, x.path)) if isinstance(x, Ref) and m == "deref" else self.term(x))
        return self.app("mk:" + short(v.ty), ts, U)

    def havoc_target(self, r, name, i, ts):
        """what the k-th &mut argument of an opaque function refers to afterwards"""
        old = self.load(r.cell, r.path)
        st = old.ty if isinstance(old, (Adt, Sym)) else None
        if st and strip_ty_generics(st) in STRUCTS:
            for n, k, fty, m in self.sfields(old):
                if m == "const":
                    continue
                if m == "mut":
                    self.store(r.cell, r.path + ((None, k, fty),), self.mat(self.app("%s!%s%d" % (name, n, i), ts, sort_of(fty)), fty))
                else:
                    x = self.field(old, None, k, fty)
                    self.havoc_target(x, "%s!%s" % (name, n), i, ts)
            inv = STRUCT_INV.get(strip_ty_generics(st))
            if inv:
                for f in inv(self, self.load(r.cell, r.path), old):
                    self.assume(f)
            return True
        return False

    # --- boxing into a term
    def term(self, v):
        if is_z3(v):
            return v
        if isinstance(v, (Adt, Sym)) and v.ty and strip_ty_generics(v.ty) in STRUCTS:
            return self.struct_term(v)
        if isinstance(v, Sym):
            if not v.over:
                return v.term
            t = v.term
            items = sorted(v.over.items(), key=lambda kv: str(kv[0]))
            if any(k[0] == "#" for k in v.over):
                if len(items) != 1:
                    raise Unsupported("several writes into one sequence")
                ix = self.idxterm[items[0][0][1]]
                xt = self.term(items[0][1])
                n = self.app("upd:#", [t, ix, xt], U)
                for l in ("len", "im.len"):
                    self.axiom(self.app(l, [n], INT) == self.app(l, [t], INT))
                self.axiom(self.app("at", [n, ix], xt.sort()) == xt)
                return n
            for (var, i), x in items:
                xt = self.term(x)
                t = self.app("upd:%s.%d" % (var or "", i), [t, xt], U)
            self.upd[t.get_id()] = v
            self.keep = getattr(self, "keep", []); self.keep.append(t)
            for (var, i), x in items:
                xt = self.term(x)
                self.axiom(self.app("%s.%d" % (var or "", i), [t], xt.sort()) == xt)
            return t
        if isinstance(v, FnDef):
            return z3.Const("fn:" + v.path, U)
        if isinstance(v, Ref):
            c = self.load(v.cell, v.path)
            ct = self.term(c)
            if v.cell[0] == "d" and not v.path and False:
                pass
            t = self.app("ref", [ct], U)
            self.axiom(self.app("deref", [t], ct.sort()) == ct)
            return t
        if isinstance(v, Adt):
            if v.ty == "()":
                return z3.Const("unit", U)
            fts = [self.term(f) for f in v.fields]
            # eta: a tuple/struct whose fields are all the projections of one term is that term
            nm = "mk:%s" % (v.variant if v.variant else ("tup" if v.ty.startswith("(") else short(v.ty)))
            if not fts:
                t = z3.Const(nm if "PhantomData" not in v.ty else v.ty.replace("::<", "<"), U)
            else:
                t = self.app(nm, fts, U)
            if v.variant is not None:
                self.axiom(self.app("discr", [t], INT) == self.discr_of(v.ty, v.variant))
            for i, ft in enumerate(fts):
                pre = ("t%d" % i) if (v.ty.startswith("(") and v.variant is None) else "%s.%d" % (v.variant or "", i)
                self.axiom(self.app(pre, [t], ft.sort()) == ft)
            return t
        raise Unsupported("term of %r" % (v,))

    def enum_info(self, ty):
        t = strip_ty_generics(ty)
        s = t.split("::")[-1]
        for k, vs in EXT_ENUMS.items():
            if t == k:
                return vs, {v: i for i, v in enumerate(vs)}
        loc = self.ex.prog.enums.get(s)
        if loc and not t.startswith(("std::", "core::")):
            if len(loc) > 1:
                rel = "src/" + "/".join(t.split("::")[:-1])
                c = [l for l in loc if l[0] in (rel + ".rs", rel + "/mod.rs")]
                if c:
                    loc = c
            return loc[0][1], loc[0][2]
        if s in BUILTIN_ENUMS:
            vs = BUILTIN_ENUMS[s]
            if s == "Ordering":
                return vs, {"Less": -1, "Equal": 0, "Greater": 1}
            return vs, {v: i for i, v in enumerate(vs)}
        return None, None

    def discr_of(self, ty, variant):
        vs, d = self.enum_info(ty)
        if d is None:
            # by variant name for well known enums
            for s, l in BUILTIN_ENUMS.items():
                if variant in l:
                    return {"Less": -1, "Equal": 0, "Greater": 1}.get(variant, l.index(variant))
            raise Unsupported("enum layout of " + ty)
        if variant not in d:
            raise Unsupported("lost anchor: no variant %s of %s" % (variant, ty))
        x = d.get(variant)
        if not isinstance(x, int):
            # explicit but symbolic discriminant (C enum constants): use a name
            return z3.Int("discr:" + str(x[1] if isinstance(x, tuple) else variant))
        return x

    def discr(self, v):
        if isinstance(v, Adt):
            if v.variant is None:
                raise Unsupported("discriminant of struct %r" % v)
            d = self.discr_of(v.ty, v.variant)
            return z3.IntVal(d) if isinstance(d, int) else d
        if isinstance(v, Sym):
            u = self.upd.get(v.term.get_id())
            t = self.app("discr", [v.term], INT)
            vs, d = self.enum_info(v.ty)
            if d is not None and all(isinstance(x, int) for x in d.values()) and d:
                self.axiom(z3.Or([t == x for x in d.values()]))
            return t
        raise Unsupported("discriminant of %r" % (v,))

    def case(self, v, ty=None):
        """fork on the variant of an enum value -> variant name"""
        if isinstance(v, Adt):
            return v.variant
        if isinstance(v, Ref):
            v = self.load(v.cell, v.path)
            return self.case(v)
        vs, d = self.enum_info(v.ty)
        if vs is None:
            raise Unsupported("case on " + v.ty)
        t = self.discr(v)
        i = self.choose([t == d[x] for x in vs])
        return vs[i]

    def is_variant(self, v, variant):
        if isinstance(v, Adt):
            if v.variant != variant:
                self.same_enum(v.ty, v.variant, variant)
            return z3.BoolVal(v.variant == variant)
        if isinstance(v, Ref):
            return self.is_variant(self.load(v.cell, v.path), variant)
        return self.discr(v) == self.discr_of(v.ty, variant)

    def same_enum(self, ty, *variants):
        """a variant a specification speaks of may have been renamed: that says nothing about the code"""
        if not ty or None in variants:
            return
        try:
            vs, d = self.enum_info(ty)
        except Exception:
            return
        for x in variants:
            if d and x not in d:
                raise Unsupported("lost anchor: no variant %s of %s" % (x, ty))

    # --- memory
    def load(self, cell, path=()):
        if cell not in self.mem:
            if cell not in self.matinit:
                raise Unsupported("read of uninitialised %s" % (cell,))
            self.mem[cell] = self.matinit[cell]
        v = self.mem[cell]
        for (var, i, ty) in path:
            if var == "#":                       # index into array / vec element
                v = self.elem(v, i, ty)
            else:
                v = self.field(v, var, i, ty)
        return v

    def elem(self, v, i, ty):
        if isinstance(v, Adt):
            if isinstance(i, int):
                return v.fields[i]
            iv = z3.simplify(i)
            if z3.is_int_value(iv):
                return v.fields[iv.as_long()]
            raise Unsupported("symbolic array index")
        if is_z3(v) and v.sort() == STR:
            x = z3.StrToCode(z3.SubString(v, i, 1))
            if ty == "u8":
                j = i if is_z3(i) else z3.IntVal(i)
                self.axiom(z3.Implies(z3.And(j >= 0, j < z3.Length(v)), z3.And(x >= 0, x <= 255)))
            return x
        if isinstance(v, Sym):
            ov = v.over.get(("#", str(i)))
            if ov is not None:
                return ov
            if any(isinstance(k, tuple) and k[0] == "#" for k in v.over):
                raise Unsupported("indexed read over indexed write")
            d = self.seqdef.get(v.term.get_id())
            if d is not None:
                return d(i if is_z3(i) else z3.IntVal(i))
            t, iz = v.term, (i if is_z3(i) else z3.IntVal(i))
            while t.get_id() in self.pushes:
                old, x, n, _ = self.pushes[t.get_id()]
                a = self.app("at", [t, iz], x.sort())
                b = self.app("at", [old, iz], x.sort())
                self.axiom(a == z3.If(iz == n, x, b))
                t = old
            return self.mat(self.app("at", [v.term, i if is_z3(i) else z3.IntVal(i)], sort_of(ty)), ty)
        raise Unsupported("index of %r" % (v,))

    def store(self, cell, path, x):
        if not path:
            self.mem[cell] = x
            return
        def upd(v, path):
            (var, i, ty), rest = path[0], path[1:]
            if var == "#":
                if isinstance(v, Adt) and isinstance(i, int):
                    fs = list(v.fields); fs[i] = upd(fs[i], rest) if rest else x
                    return Adt(v.ty, v.variant, fs)
                if isinstance(v, Sym):
                    sub = upd(self.elem(v, i, ty), rest) if rest else x
                    o = dict(v.over); o[("#", str(i))] = sub
                    self.idxterm[str(i)] = i if is_z3(i) else z3.IntVal(i)
                    return Sym(v.term, v.ty, o)
                raise Unsupported("indexed store")
            sub = upd(self.field(v, var, i, ty), rest) if rest else x
            return self.set_field(v, var, i, sub)
        self.mem[cell] = upd(self.mem.get(cell, None) if cell in self.mem else Adt("?", None, []), path)

    def deref(self, v):
        if isinstance(v, Ref):
            return self.load(v.cell, v.path)
        if is_z3(v) and v.sort() == STR:
            return v
        if isinstance(v, Sym):
            raise Unsupported("deref of %r" % v)
        return v

    def alloc(self, v, tag="h"):
        self.nfresh += 1
        c = (tag, self.nfresh)
        self.mem[c] = v
        return c

    def mkref(self, v, kind="shared", ty="?"):
        return Ref(self.alloc(v), (), kind, ty)

    # --- equality
    def eq(self, a, b, mem_a=None, mem_b=None):
        """z3 formula: values equal (refs by content)"""
        if isinstance(a, tuple): a = Adt("()", None, a)
        if isinstance(b, tuple): b = Adt("()", None, b)
        if a is b and mem_a is mem_b and not isinstance(a, Ref):
            return z3.BoolVal(True)
        if is_z3(a) and is_z3(b):
            if a.sort() != b.sort():
                return z3.BoolVal(False)
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.kind == "mut" or b.kind == "mut":
                if a.cell[0] in ("d", "a") or b.cell[0] in ("d", "a"):
                    same = a.cell == b.cell and len(a.path) == len(b.path) and all(self.same_step(x, y) for x, y in zip(a.path, b.path))
                    if not same:
                        return z3.BoolVal(False)
                    return z3.BoolVal(True)
            return self.eq(self.load_in(a, mem_a), self.load_in(b, mem_b), mem_a, mem_b)
        if isinstance(a, FnDef) or isinstance(b, FnDef):
            return z3.BoolVal(isinstance(a, FnDef) and isinstance(b, FnDef) and a.path == b.path)
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.variant != b.variant:
                self.same_enum(a.ty, a.variant, b.variant); self.same_enum(b.ty, a.variant, b.variant)
            if a.variant == b.variant and len(a.fields) != len(b.fields):
                raise Unsupported("lost anchor: the fields of %s are others" % a.ty)
            if a.variant != b.variant:
                return z3.BoolVal(False)
            return z3.And([self.eq(x, y, mem_a, mem_b) for x, y in zip(a.fields, b.fields)] + [z3.BoolVal(True)])
        if isinstance(a, Sym) and isinstance(b, Sym):
            if not a.over and not b.over:
                return a.term == b.term
            keys = set(a.over) | set(b.over)
            conj = [a.term == b.term]
            for k in keys:
                x, y = a.over.get(k), b.over.get(k)
                if x is None:
                    x = self.peek(a, k, y)
                if y is None:
                    y = self.peek(b, k, x)
                conj.append(self.eq(x, y, mem_a, mem_b))
            return z3.And(conj)
        if isinstance(a, Adt) and isinstance(b, Sym):
            return self.eq(b, a, mem_b, mem_a)
        if isinstance(a, Sym) and isinstance(b, Adt):
            conj = []
            if b.variant is not None:
                conj.append(self.discr(a) == self.discr_of(b.ty, b.variant))
            for i, f in enumerate(b.fields):
                k = (b.variant, i)
                x = a.over.get(k)
                if x is None:
                    x = self.peek(a, k, f)
                conj.append(self.eq(x, f, mem_a, mem_b))
            return z3.And(conj + [z3.BoolVal(True)])
        if isinstance(a, Ref) and isinstance(b, Sym):
            return self.in_mem(mem_a, lambda: self.term(a)) == self.in_mem(mem_b, lambda: self.term(b))
        if isinstance(b, Ref) and isinstance(a, Sym):
            return self.eq(b, a, mem_b, mem_a)
        if is_z3(a) and isinstance(b, Sym) or is_z3(b) and isinstance(a, Sym):
            return z3.BoolVal(False)
        raise Unsupported("eq %r %r" % (a, b))

    def in_mem(self, mem, f):
        if mem is None or mem is self.mem:
            return f()
        old = self.mem
        self.mem = mem
        try:
            return f()
        finally:
            self.mem = old

    def load_in(self, r, mem):
        return self.in_mem(mem, lambda: self.load(r.cell, r.path))

    def same_step(self, x, y):
        if x[0] != y[0]:
            return False
        if is_z3(x[1]) or is_z3(y[1]):
            return str(z3.simplify(x[1] if is_z3(x[1]) else z3.IntVal(x[1]))) == str(z3.simplify(y[1] if is_z3(y[1]) else z3.IntVal(y[1])))
        return x[1] == y[1]

    def peek(self, s, k, like):
        """the k-field of Sym s, shaped like the given value"""
        var, i = k
        if var == "#":
            raise Unsupported("indexed compare")
        if is_z3(like):
            u = self.upd.get(s.term.get_id())
            if u is not None:
                return self.peek2(u, k, like)
            return self.app("%s.%d" % (var or "", i), [s.term], like.sort())
        ty = like.ty if isinstance(like, (Adt, Sym)) else None
        if isinstance(like, Ref):
            ty = {"mut": "&mut ", "box": "std::boxed::Box<", "shared": "&"}.get(like.kind, "&") + like.ty + (">" if like.kind == "box" else "")
        if isinstance(like, FnDef):
            return Sym(self.app("%s.%d" % (var or "", i), [s.term], U), "fn")
        if like.ty.startswith("{closure"):
            return Sym(self.app("%s.%d" % (var or "", i), [s.term], U), like.ty)
        return self.field(s, var, i, ty)

    def peek2(self, u, k, like):
        x = u.over.get(k)
        return x if x is not None else self.peek(Sym(u.term, u.ty), k, like)

    # --- obligations
    def oblige(self, kind, goal, where=""):
        """record (and discharge) an obligation under the current path condition"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self.ex.record(self, kind, where, "trivial", goal)
            return
        r = self.regular(goal)
        if r is not None:
            b, L = r
            L = relang.neg(L)
            if b.get_id() in self.lang:
                L = relang.conj(self.lang[b.get_id()][1], L)
            try:
                if relang.is_empty(L):
                    self.ex.record(self, kind, where, "unsat", goal, "derivatives")
                    return
            except OverflowError:
                pass
        self.ex.discharge(self, kind, where, goal)

class Explorer:
    def __init__(self, prog, lib, contracts, feas_ms=300, obl_ms=10000, max_paths=4000, max_time=300):
        self.prog, self.lib, self.contracts = prog, lib, contracts
        self.feas_ms, self.obl_ms, self.max_paths, self.max_time = feas_ms, obl_ms, max_paths, max_time
        self.stats = Stats()
        self.results = []
        self.cur = None
        self.opaque_ext = {}
        self.used_contracts = set()
        self.inlined = set()
        self.used_lib = set()
        self.feas_cache = {}

    def record(self, run, kind, where, verdict, goal, detail=None, ms=0):
        self.results.append(dict(fn=self.cur, kind=kind, where=where, verdict=verdict, detail=detail, ms=ms,
                                 imprecise=list(run.imprecise), path=list(run.dec[:run.di])))

    def discharge(self, run, kind, where, goal):
        t = time.time()
        verdict, detail = solve(run.pc, biglen(run, goal), self.obl_ms, run)
        ms = int((time.time() - t) * 1000)
        self.stats.queries += 1; self.stats.time += ms / 1000
        if verdict.startswith("sat"):
            key = (kind, where)
        self.record(run, kind, where, verdict, goal, detail, ms)

    def explore(self, body):
        """run body(run) along all paths"""
        self.work = [[]]
        n = 0
        t0 = time.time()
        while self.work:
            dec = self.work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            if time.time() - t0 > self.max_time:
                raise Unsupported("time limit %ds for one function" % self.max_time)
            run = Run(self, dec)
            try:
                body(run)
            except PathEnd:
                pass
        return n

# ------------------------------------------------------------------ solving
def collect_defs(fs):
    """definitional axioms for every application of a DEFS symbol (transitively)"""
    seen, out, work = set(), [], list(fs)
    done = set()
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            nm = e.decl().name()
            if nm in DEFS and e.num_args() == DEFS[nm][0].arity():
                ax = DEFS[nm][1](*e.children())
                ax = e == ax
                out.append(ax); work.append(ax)
            work.extend(e.children())
        elif z3.is_quantifier(e):
            work.append(e.body())
    return out

LAST = {}
_hasstr = {}
def has_str(e):
    """mentions a string-sorted term"""
    k = e.get_id()
    h = _hasstr.get(k)
    if h is not None and h[0].eq(e):
        return h[1]
    r = e.sort() == STR or any(has_str(e.arg(i)) for i in range(e.num_args())) if z3.is_app(e) else False
    _hasstr[k] = (e, r)
    return r

def solve(pc, goal, ms, run=None):
    """-> (verdict, detail): 'unsat(z3)', 'sat', 'unknown'"""
    if run is not None and run.strpc:
        # without what is known only about strings
        s = z3.Solver(); s.set("timeout", min(ms, 3000))
        for p in pc:
            if p.get_id() not in run.strpc:
                s.add(p)
        s.add(z3.Not(goal))
        if scheck(s) == z3.unsat:
            return "unsat", "z3"
        # with the strings fixed to members of their languages
        g = run.regular(goal)
        for b, L in run.lang.values():
            if g is not None and g[0].eq(b):
                L = relang.conj(L, relang.neg(g[1]))
            w = relang.witness(L)
            if w is None:
                break
            s.add(b == S(w))
        else:
            defs = collect_defs(list(pc) + [goal])
            for p in pc:
                s.add(p)
            for d in defs:
                s.add(d)
            if scheck(s) == z3.sat:
                return "sat", model_text(s)
    s = z3.Solver(); s.set("timeout", min(ms, 3000))
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    r = scheck(s)
    if r == z3.unsat:
        return "unsat", "z3"
    defs = collect_defs(list(pc) + [goal])
    if r == z3.sat and not defs:
        return "sat", model_text(s)
    fs = list(pc) + defs + [z3.Not(goal)]
    s2 = z3.Solver(); s2.set("timeout", ms)
    for f in fs:
        s2.add(f)
    r2 = scheck(s2)
    if r2 == z3.unsat:
        return "unsat", "z3"
    if r2 == z3.sat:
        return "sat", model_text(s2)
    v = cvc5_check(s2, ms)
    if v == "unsat":
        return "unsat", "cvc5"
    if v == "sat":
        return "sat", "cvc5 reports sat"
    return "unknown", ""

def model_text(s):
    try:
        m = s.model()
        items = []
        for d in m.decls():
            if d.arity() == 0:
                items.append("%s = %s" % (d.name(), m[d]))
        return "; ".join(sorted(items))[:1500]
    except Exception as e:
        return str(e)

def cvc5_check(solver, ms):
    import subprocess, tempfile, os
    txt = solver.to_smt2()
    txt = "(set-logic ALL)\n(set-option :strings-exp true)\n" + re.sub(r"\(set-info[^\n]*\)\n", "", txt)
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write(txt); f.close()
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--lang=smt2", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout else ""
        return o
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)
