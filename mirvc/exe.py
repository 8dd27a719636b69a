"""Execution of MIR statements and calls on top of vc.Run."""
import re
import z3
import mir as M
from mir import norm_ty, short, refshort, strip_generics, last_generics, split_top, INTTY, match_close, strip_ty_generics
from vc import *
import vc

MAXDEPTH = 40

UNROLL = 12

class Frame:
    __slots__ = ("fn", "id", "subst", "seen_heads", "key", "loopspecs", "headstate", "roles")
    def __init__(self, fn, id, subst, key):
        self.fn, self.id, self.subst, self.key = fn, id, subst, key
        self.seen_heads = {}
        self.headstate = {}
        self.loopspecs = None
        self.roles = {}

class Call:
    """what an intrinsic sees"""
    __slots__ = ("path", "key", "args", "tys", "ret", "gens", "selfty", "trait", "method", "frame")

OWNED = re.compile(r"<(str|std::string::String|value::Value) as (?:std::borrow::)?ToOwned>::Owned")
def subst_ty(ty, subst):
    r = subst_ty0(ty, subst)
    if "ToOwned" in r:
        r = OWNED.sub(lambda m: "std::string::String" if m.group(1) == "str" else m.group(1), r)
    return r

def subst_ty0(ty, subst):
    if not subst:
        return ty
    def r(m):
        return subst.get(m.group(0), m.group(0))
    return re.sub(r"(?<![\w:])[A-Z][A-Za-z0-9_]*(?![\w:]|::)", r, ty) if not any("::" in k for k in subst) else re.sub(r"(?<![\w:])[A-Z][A-Za-z0-9_]*(?![\w])", r, ty)

IDENT = re.compile(r"^[A-Z][A-Za-z0-9_]*$")
def unify(decl, act, out):
    """bind bare type parameters in decl from act (both type strings)"""
    decl, act = decl.strip(), act.strip()
    if decl == act:
        return
    if IDENT.match(decl) and decl not in ("Self", "String"):
        out.setdefault(decl, act)
        return
    for p in ("&mut ", "&", "*const ", "*mut "):
        if decl.startswith(p) and act.startswith(p):
            return unify(decl[len(p):], act[len(p):], out)
    if decl.startswith("(") and act.startswith("(") and decl.endswith(")") and act.endswith(")"):
        a, b = split_top(decl[1:-1]), split_top(act[1:-1])
        if len(a) == len(b):
            for x, y in zip(a, b):
                unify(x, y, out)
        return
    if decl.endswith(">") and act.endswith(">") and not decl.startswith("<"):
        if strip_ty_generics(decl).split("::")[-1] == strip_ty_generics(act).split("::")[-1]:
            a, b = ty_args(decl), ty_args(act)
            if len(a) == len(b):
                for x, y in zip(a, b):
                    unify(x, y, out)
        return
    m1 = re.match(r"(?:unsafe )?(?:extern \S+ )?fn\((.*)\) -> (.*)$", decl)
    m2 = re.match(r"(?:unsafe )?(?:extern \S+ )?fn\((.*)\) -> (.*)$", act)
    if m1 and m2:
        unify(m1.group(2), m2.group(2), out)

def is_param(ty):
    """an unresolved type parameter or projection"""
    t = re.sub(r"^(&mut |&)+", "", ty.strip())
    return bool(IDENT.match(t)) and t != "String" or t.startswith("impl ") or t.startswith("<") or t.startswith("dyn ")

class Exec:
    """mixed into Run"""
    pass

def place_ty(fr, place):
    t = subst_ty(fr.fn.locals[place.local], fr.subst)
    for p in place.proj:
        if p[0] == "deref":
            if t in STRTY:
                t = t.replace("&mut ", "").replace("&", "")
            else:
                t = pointee(t)
        elif p[0] == "field":
            t = subst_ty(p[2], fr.subst)
        elif p[0] in ("index", "cindex"):
            t = elem_ty(t)
    return t

def elem_ty(t):
    if t in STRTY:
        return "u8"
    if t.startswith("[") and t.endswith("]"):
        return split_top(t[1:-1], ";")[0]
    if t.endswith(">"):
        return ty_args(t)[0]
    raise Unsupported("elem type of " + t)

def resolve_place(run, fr, place):
    cell, path = ("l", fr.id, place.local), ()
    var = None
    t = subst_ty(fr.fn.locals[place.local], fr.subst)
    for p in place.proj:
        k = p[0]
        if k == "deref":
            v = run.load(cell, path)
            if isinstance(v, Ref):
                cell, path = v.cell, v.path
                if t not in STRTY:
                    try:
                        t = pointee(t)
                    except Unsupported:
                        t = v.ty
            elif is_z3(v) and v.sort() == STR:
                t = {"&[u8]": "[u8]", "&mut [u8]": "[u8]", "&str": "str", "&mut str": "str"}.get(t, t)
            elif isinstance(v, (Adt, Sym, FnDef)) or is_z3(v):
                # reference to a constant held by value
                if isinstance(v, Sym) and v.ty in vc.BYTEPTRS:
                    b = vc.BYTE_AT(run, v)
                    cell, path = run.alloc(b, "byte"), ()
                    t = pointee(t)
                elif isinstance(v, Sym) and v.ty.startswith(("&", "*")):
                    raise Unsupported("deref of opaque %r" % v)
            else:
                raise Unsupported("deref %r" % (v,))
            var = None
        elif k == "variant":
            var = p[1]
        elif k == "field":
            ft = subst_ty(p[2], fr.subst)
            if ft.startswith(("std::ptr::Unique<", "std::ptr::NonNull<", "core::ptr::")) :
                v = run.load(cell, path)
                if isinstance(v, Ref) or is_z3(v) and v.sort() == STR:
                    t = ft; var = None
                    continue
            path = path + ((var, p[1], ft),)
            t = ft; var = None
        elif k == "index":
            iv = run.load(("l", fr.id, p[1]))
            et = elem_ty(t)
            path = path + (("#", simp_idx(iv), et),)
            t = et
        elif k == "cindex":
            et = elem_ty(t)
            i = p[1]
            if i < 0:
                v = run.load(cell, path)
                i = len(v.fields) + i if isinstance(v, Adt) else simp_idx((z3.Length(v) if is_z3(v) else vc.vec_len(run, v)) + i)
            path = path + (("#", i, et),)
            t = et
        elif k == "subslice":
            v = run.load(cell, path)
            if not (is_z3(v) and v.sort() == STR):
                raise Unsupported("projection subslice")
            lo, hi = int(p[1] or 0), int(p[2] or 0)
            if hi > 0:
                raise Unsupported("projection subslice")
            cell, path = run.alloc(z3.SubString(v, lo, z3.Length(v) - lo + hi), "part"), ()
        else:
            raise Unsupported("projection %s" % k)
    return cell, path, t

def simp_idx(iv):
    s = z3.simplify(iv)
    return s.as_long() if z3.is_int_value(s) else s

def wrap_lit(n, ty):
    lo, hi = INTTY[ty]
    return (n - lo) % (hi - lo + 1) + lo

def wrap_int(e, ty):
    lo, hi = INTTY[ty]
    n = hi - lo + 1
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return z3.IntVal((e.as_long() - lo) % n + lo)
    return (e - lo) % n + lo

def copy_val(run, v):
    return v

def eval_operand(run, fr, op):
    k = op[0]
    if k in ("move", "copy"):
        cell, path, t = resolve_place(run, fr, op[1])
        return run.load(cell, path), place_ty(fr, op[1])
    return eval_const(run, fr, op[1])

def eval_const(run, fr, c):
    k = c[0]
    if k == "int":
        return z3.IntVal(c[1]), c[2]
    if k == "bool":
        return z3.BoolVal(c[1]), "bool"
    if k == "unit":
        return UNIT, "()"
    if k == "str":
        return S(c[1]), "&str"
    if k == "bytes":
        return S(c[1]), "&[u8]"
    if k == "float":
        return fp_const(c[1], c[2]), c[2]
    if k == "alloc":
        return run.ex.eval_alloc(run, fr, c[1], c[2]), c[2]
    return run.ex.eval_path_const(run, fr, subst_ty(c[1], fr.subst))

def fp_const(s, ty):
    srt = F64 if ty == "f64" else F32
    if s == "inf":
        return z3.fpPlusInfinity(srt)
    if s == "-inf":
        return z3.fpMinusInfinity(srt)
    if s == "NaN":
        return z3.fpNaN(srt)
    return z3.FPVal(float(s), srt)

def eval_rvalue(run, fr, rv, dest_ty):
    k = rv[0]
    if k == "use":
        return eval_operand(run, fr, rv[1])[0]
    if k == "ref":
        cell, path, t = resolve_place(run, fr, rv[2])
        if rv[1] in ("shared", "rawconst", "mut", "rawmut"):
            v = run.load(cell, path) if (cell in run.mem) else None
            if v is not None and is_z3(v) and v.sort() == STR and dest_ty in STRTY:
                return v
            kind = "mut" if rv[1] in ("mut", "rawmut") else "shared"
            return Ref(cell, path, kind, t)
    if k == "discr":
        cell, path, t = resolve_place(run, fr, rv[1])
        return run.discr(run.load(cell, path))
    if k == "bin":
        (a, ta), (b, tb) = eval_operand(run, fr, rv[2]), eval_operand(run, fr, rv[3])
        return binop(run, rv[1], a, b, ta, tb)
    if k == "un":
        a, ta = eval_operand(run, fr, rv[2])
        if rv[1] == "Not":
            if a.sort() == BOOL:
                return z3.Not(a)
            lo, hi = INTTY[ta]
            return z3.simplify(hi - a) if lo == 0 else z3.simplify(-a - 1)
        if rv[1] == "Neg":
            if z3.is_fp(a):
                return z3.fpNeg(a)
            return -a
        if rv[1] == "PtrMetadata":
            if is_z3(a) and a.sort() == STR:
                return z3.Length(a)
            if isinstance(a, Ref):
                c = run.load(a.cell, a.path)
                if isinstance(c, Adt):
                    return z3.IntVal(len(c.fields))
                if is_z3(c) and c.sort() == STR:
                    return z3.Length(c)
                return vec_len(run, c)
        raise Unsupported("unop " + rv[1])
    if k == "cast":
        a, ta = eval_operand(run, fr, rv[1])
        return cast(run, fr, a, ta, subst_ty(rv[2], fr.subst), rv[3])
    if k == "agg":
        if rv[1] == "tuple":
            fs = [eval_operand(run, fr, o)[0] for o in rv[2]]
            return UNIT if not fs else Adt(dest_ty, None, fs)
        if rv[1] == "array":
            return Adt(dest_ty, None, [eval_operand(run, fr, o)[0] for o in rv[2]])
        if rv[1] == "closure":
            return Adt(run.ex.prog.closure_ty(rv[2], fr.fn), None, [eval_operand(run, fr, o)[0] for o in closure_ops(run, fr, rv)])
        path, ops = rv[2], rv[3]
        fs = [eval_operand(run, fr, o)[0] for o in ops]
        return run.ex.aggregate(run, fr, subst_ty(path, fr.subst), fs, dest_ty)
    if k == "len":
        cell, path, t = resolve_place(run, fr, rv[1])
        v = run.load(cell, path)
        if is_z3(v):
            return z3.Length(v)
        if isinstance(v, Adt):
            return z3.IntVal(len(v.fields))
        return vec_len(run, v)
    if k == "repeat":
        v = eval_operand(run, fr, rv[1])[0]
        n = re.sub(r"_usize", "", rv[2].replace("const ", ""))
        if n.isdigit() and int(n) <= 16:
            return Adt(dest_ty, None, [v] * int(n))
        return Sym(run.app("repeat:" + rv[2], [run.term(v)], U), dest_ty)
    if k == "shallowbox":
        t = subst_ty(rv[1], fr.subst)
        return Ref(run.alloc(Adt("not yet written", None, []), "box"), (), "box", t)
    if k == "nullary":
        return z3.Const("%s(%s)" % (rv[1], rv[2]), INT)
    raise Unsupported("rvalue %s" % k)

def closure_ops(run, fr, rv):
    """rustc's printer lists one capture per captured variable, not per captured path;
    the operands it leaves out are the temporaries whose storage ends right after."""
    name, ops = rv[2], rv[3]
    body = run.ex.prog.closures.get(run.ex.prog.closure_ty(name, fr.fn))
    if body is None:
        return ops
    need = closure_fields(body)
    if need <= len(ops):
        return ops
    for b, stmts in fr.fn.blocks.items():
        for k, st in enumerate(stmts):
            if st[0] == "assign" and st[2] is rv:
                dead = []
                for nx in stmts[k + 1:]:
                    if nx[0] == "storage" and nx[1] == "Dead":
                        dead.append(nx[2])
                    else:
                        break
                dead.reverse()
                printed = [o[1].local for o in ops if o[0] == "move" and not o[1].proj]
                if len(printed) == len(ops) and len(dead) >= need:
                    cand = dead[-need:]
                    if cand[:len(printed)] == printed:
                        return [("move", M.Place(i)) for i in cand]
                raise Unsupported("captures of " + name)
    raise Unsupported("captures of " + name)

def closure_fields(body):
    n = getattr(body, "_nfields", None)
    if n is None:
        n = 0
        for lines in body.raw.values():
            for l in lines:
                for m in re.finditer(r"\(_1\.(\d+): |\(\(\*_1\)\.(\d+): ", l):
                    n = max(n, int(m.group(1) or m.group(2)) + 1)
        body._nfields = n
    return n

def vec_len(run, v):
    t = run.term(v)
    l = run.app("len", [t], INT)
    run.axiom(z3.And(l >= 0, l <= 2**63 - 1))
    return l

ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}

def binop(run, op, a, b, ta, tb):
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        if isinstance(a, (Ref, Sym, Adt, FnDef)):
            if op in ("Eq", "Ne") and isinstance(a, Sym) and isinstance(b, Sym):
                e = a.term == b.term
                return e if op == "Eq" else z3.Not(e)
            if isinstance(a, (Ref, Sym)):
                e = run.app("ptr" + op, [ptr_id(run, a), ptr_id(run, b)], BOOL)
                return e
            raise Unsupported("compare %r" % (a,))
        if z3.is_fp(a):
            return {"Eq": z3.fpEQ, "Ne": z3.fpNEQ, "Lt": z3.fpLT, "Le": z3.fpLEQ, "Gt": z3.fpGT, "Ge": z3.fpGEQ}[op](a, b)
        if a.sort() == BOOL:
            if op == "Eq": return a == b
            if op == "Ne": return a != b
            ai, bi = z3.If(a, 1, 0), z3.If(b, 1, 0)
            a, b = ai, bi
        if a.sort() == STR:
            raise Unsupported("pointer comparison of strings")
        return {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()
    if op.endswith("WithOverflow"):
        e = z3.simplify(ARITH[op[:3]](a, b))
        lo, hi = INTTY[ta]
        return Adt("(%s, bool)" % ta, None, [wrap_if(e, ta), z3.Or(e < lo, e > hi)])
    if op.endswith("Unchecked"):
        op = op[:-9]
    if op in ARITH:
        if z3.is_fp(a):
            f = {"Add": z3.fpAdd, "Sub": z3.fpSub, "Mul": z3.fpMul}[op]
            return f(z3.RNE(), a, b)
        return wrap_int(ARITH[op](a, b), ta)
    if op in ("BitAnd", "BitOr", "BitXor") and a.sort() == BOOL:
        return {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](a, b)
    if op in ("Div", "Rem") and not z3.is_fp(a):
        if INTTY[ta][0] == 0:
            return a / b if op == "Div" else a % b
        q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        return q if op == "Div" else a - b * q
    if op == "Cmp":
        x = z3.If(a < b, -1, z3.If(a == b, 0, 1)) if not z3.is_fp(a) else None
        i = run.choose([a < b, a == b, a > b])
        return Adt("std::cmp::Ordering", ["Less", "Equal", "Greater"][i], [])
    if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Offset"):
        av, bv = z3.simplify(a) if is_z3(a) else a, z3.simplify(b) if is_z3(b) else b
        if is_z3(av) and z3.is_int_value(av) and z3.is_int_value(bv):
            x, y = av.as_long(), bv.as_long()
            return z3.IntVal({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": wrap_lit(x << y, ta), "Shr": x >> y}[op])
        if op == "Offset":
            raise Unsupported("pointer arithmetic")
        if z3.is_int_value(bv):
            y = bv.as_long()
            if op == "Shr" and 0 <= y < 128: return a / 2**y
            if op == "Shl" and 0 <= y < 128: return wrap_int(a * 2**y, ta)
            if op == "BitAnd" and y >= 0 and y & (y + 1) == 0: return a % (y + 1)
            if op == "BitAnd" and y > 0 and y & (y - 1) == 0: return z3.If(a / y % 2 == 1, z3.IntVal(y), z3.IntVal(0))
        r = run.app("bit:" + op, [a, b], INT)
        if ta in INTTY:
            run.axiom(z3.And(r >= INTTY[ta][0], r <= INTTY[ta][1]))
        return r
    raise Unsupported("binop %s" % op)

def wrap_if(e, ty):
    """value of a checked operation: when no overflow it is e itself"""
    return e

def ptr_id(run, v):
    if isinstance(v, Sym):
        return v.term
    return z3.Const("addr:%s%s" % (v.cell, v.path), U)

def cast(run, fr, a, ta, tb, kind):
    if kind == "IntToInt":
        if ta == "bool":
            return z3.If(a, 1, 0)
        if not is_z3(a):
            raise Unsupported("int cast of %r" % (a,))
        la, ha = INTTY.get(ta, (-2**63, 2**63 - 1))
        lb, hb = INTTY[tb]
        if lb <= la and ha <= hb:
            return a
        av = z3.simplify(a)
        if z3.is_int_value(av):
            return wrap_int(av, tb)
        # fork: in range or wrapped
        if run.branch(z3.And(a >= lb, a <= hb)):
            return a
        return wrap_int(a, tb)
    if kind == "IntToFloat":
        return i2f(run, a, tb)
    if kind == "FloatToFloat":
        return fconv(a, tb)
    if kind == "FloatToInt":
        r = run.app("f2i:" + tb, [a], INT)
        run.axiom(z3.And(r >= INTTY[tb][0], r <= INTTY[tb][1]))
        return r
    if kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFn"):
        return a
    if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "FnPtrToPtr"):
        if kind == "Transmute" and is_z3(a) and a.sort() == STR and ta.startswith("std::ptr::"):
            return a
        if kind == "Transmute" and is_z3(a) and sort_of(tb) != a.sort():
            raise Unsupported("transmute %s -> %s" % (ta, tb))
        return a
    if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance"):
        raise Unsupported(kind)
    raise Unsupported("cast " + kind)

I2F = {}
def i2f(run, a, tb):
    av = z3.simplify(a)
    srt = F64 if tb == "f64" else F32
    if z3.is_int_value(av) and abs(av.as_long()) < 2**53 and tb == "f64":
        return z3.FPVal(float(av.as_long()), srt)
    r = run.app("i2f:" + tb, [a], srt)
    run.axiom(z3.And(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsInf(r))))
    return r

def fconv(a, tb):
    srt = F64 if tb == "f64" else F32
    if a.sort() == srt:
        return a
    return z3.fpFPToFP(z3.RNE(), a, srt)

# ------------------------------------------------------------------ running a function
def run_fn(run, fn, args, key, subst=None, depth_ok=True):
    """execute the body of fn on argument values, returning its result"""
    fn.ensure()
    if len(run.frames) > MAXDEPTH:
        raise Unsupported("inlining depth")
    run.muttag += 1
    fr = Frame(fn, run.muttag, subst or {}, key)
    run.frames.append(fr)
    for (i, t), a in zip(fn.params, args):
        run.mem[("l", fr.id, i)] = a
    c = run.ex.contracts.get(key)
    fr.loopspecs = c.loops if c else None
    b = 0
    loops = fn.loops()
    steps = 0
    try:
        while True:
            if b in loops:
                loop_head(run, fr, b, loops[b])
            for st in fn.blocks[b][:-1]:
                exec_stmt(run, fr, st)
            st = fn.blocks[b][-1]
            steps += 1
            if steps > 20000:
                raise Unsupported("too many steps")
            k = st[0]
            if k == "goto":
                b = st[1]
            elif k == "return":
                r = run.mem.get(("l", fr.id, 0), UNIT if fn.ret == "()" else None)
                if r is None:
                    raise Unsupported("return without value")
                return r
            elif k == "switch":
                v, t = eval_operand(run, fr, st[1])
                b = switch(run, fr, v, t, st[2], st[3])
            elif k == "assert":
                neg, op = st[1]
                v, _ = eval_operand(run, fr, op)
                cond = z3.Not(v) if neg else v
                # overflow / bounds / division checks: the failing side is a panic
                if not run.branch(cond):
                    raise Panic("assert: " + st[2].strip('"')[:60])
                b = st[3]
            elif k == "call":
                r = exec_call(run, fr, st)
                if st[4] is None:
                    raise Panic("diverging call " + str(st[2]))
                if st[1] is not None:
                    assign(run, fr, st[1], r)
                b = st[4]
            elif k == "drop":
                b = st[2]
            elif k == "unreachable":
                # emitted by rustc for matches it has checked to be exhaustive
                raise PathEnd()
            else:
                raise Unsupported("terminator " + k)
    finally:
        run.frames.pop()

def assign(run, fr, place, v):
    if not place.proj:
        run.mem[("l", fr.id, place.local)] = v
        return
    cell, path, t = resolve_place(run, fr, place)
    if cell not in run.mem and path:
        run.mem[cell] = Sym(run.fresh("uninit", U), "?")
    run.store(cell, path, v)

def exec_stmt(run, fr, st):
    k = st[0]
    if k == "assign":
        pl = st[1]
        v = eval_rvalue(run, fr, st[2], place_ty(fr, pl))
        assign(run, fr, pl, v)
    elif k in ("storage", "nop"):
        if k == "storage" and st[1] == "Dead":
            pass
    elif k == "setdiscr":
        raise Unsupported("setdiscr")
    else:
        raise Unsupported("statement %s" % k)

def switch(run, fr, v, t, arms, other):
    if not is_z3(v):
        raise Unsupported("switch on %r" % (v,))
    v = z3.simplify(v)
    if v.sort() == BOOL:
        # arms: [0: bbF], otherwise: bbT   (or 1)
        d = dict(arms)
        f = d.get(0, other); tr = d.get(1, other)
        return tr if run.branch(v) else f
    if t and t in INTTY and INTTY[t][0] < 0 or t in ("isize",):
        pass
    # switch values are printed as unsigned bit patterns
    def norm(x):
        if t in INTTY and INTTY[t][0] < 0 and x > INTTY[t][1]:
            return x - (INTTY[t][1] - INTTY[t][0] + 1)
        return x
    conds = [v == norm(x) for x, _ in arms]
    targets = [b for _, b in arms]
    if other is not None:
        conds.append(z3.And([v != norm(x) for x, _ in arms]))
        targets.append(other)
    i = run.choose(conds)
    return targets[i]

# ------------------------------------------------------------------ loops
class LoopSpec:
    """inv(run, view) -> [(name, formula)];  havoc(run, view): re-initialise what the loop may change on the heap"""
    def __init__(self, inv, havoc=None, decreases=None):
        self.inv, self.havoc, self.decreases = inv, havoc, decreases

class Tail(Exception):
    """control reaches the head of a loop that is verified as a tail-recursive function of its state"""
    def __init__(self, name, state):
        self.name, self.state = name, list(state)

class TailLoop:
    """A loop as a tail-recursive function.  state(view): the values it depends on at its head; step(c, args, *state): what
    one pass does, by returning the function's result or c.tail(name, *state) for the next head; inv(run, view): facts at
    every head; decreases(run, view): a measure that each pass makes smaller (termination)."""
    def __init__(self, name, state, step, inv=None, decreases=None, havoc=None, entry=None):
        self.name, self.state, self.step, self.inv, self.decreases, self.havoc, self.entry = name, state, step, inv, decreases, havoc, entry

class View:
    """locals of a frame by their source names"""
    def __init__(self, run, fr):
        self.run, self.fr = run, fr
    def cell(self, name):
        pls = self.fr.fn.debug.get(name)
        if not pls:
            raise Unsupported("lost anchor: no local named " + name)
        for p in pls:
            m = re.fullmatch(r"_(\d+)", p)
            if m and ("l", self.fr.id, int(m.group(1))) in self.run.mem:
                return ("l", self.fr.id, int(m.group(1)))
        raise Unsupported("lost anchor: local %s not live" % name)
    def __getitem__(self, name):
        return self.run.load(self.cell(name))
    def __setitem__(self, name, v):
        self.run.mem[self.cell(name)] = v
    def var(self, ty):
        return self.var_where(lambda t: t == ty or strip_ty_generics(t) == ty, ty)
    def var_where(self, p, ty="?"):
        """the one live named local of this type that the loop changes"""
        out = []
        p0 = p
        for name, pls in self.fr.fn.debug.items():
            for p in pls:
                m = re.fullmatch(r"_(\d+)", p)
                if m and int(m.group(1)) in self.written and int(m.group(1)) not in self.temps and ("l", self.fr.id, int(m.group(1))) in self.run.mem \
                        and p0(subst_ty(self.fr.fn.locals[int(m.group(1))], self.fr.subst)) and int(m.group(1)) not in out:
                    out.append(int(m.group(1)))
        if len(out) != 1:
            raise Unsupported("lost anchor: %d loop variables of type %s" % (len(out), ty))
        return ("l", self.fr.id, out[0])
    def cells(self, ty):
        """the live named locals of this type that the loop changes, in order"""
        out = set()
        for name, pls in self.fr.fn.debug.items():
            for p in pls:
                m = re.fullmatch(r"_(\d+)", p)
                if m and int(m.group(1)) in self.written and int(m.group(1)) not in self.temps and ("l", self.fr.id, int(m.group(1))) in self.run.mem \
                        and subst_ty(self.fr.fn.locals[int(m.group(1))], self.fr.subst) == ty:
                    out.add(int(m.group(1)))
        return [("l", self.fr.id, i) for i in sorted(out)]
    def ty(self, name):
        return subst_ty(self.fr.fn.locals[self.cell(name)[2]], self.fr.subst)

def loop_written(fn, body):
    """locals assigned or mutably borrowed in the loop body"""
    w = set()
    for b in body:
        for st in fn.blocks[b]:
            if st[0] == "assign":
                if not any(p[0] == "deref" for p in st[1].proj):
                    w.add(st[1].local)
                rv = st[2]
                if rv[0] == "ref" and rv[1] in ("mut", "rawmut") and not any(p[0] == "deref" for p in rv[2].proj):
                    w.add(rv[2].local)
            elif st[0] == "call" and st[1] is not None:
                if not any(p[0] == "deref" for p in st[1].proj):
                    w.add(st[1].local)
    return w

def deref_written(run, fr, body):
    """locals that the loop changes through a reference held in another local; boxes and other cells are given any value at once"""
    out = set()
    for b in body:
        for st in fr.fn.blocks[b]:
            pls = []
            if st[0] == "assign":
                pls.append(st[1])
                if st[2][0] == "ref" and st[2][1] in ("mut", "rawmut"):
                    pls.append(st[2][2])
            elif st[0] == "call" and st[1] is not None:
                pls.append(st[1])
            for pl in pls:
                if any(p[0] == "deref" for p in pl.proj):
                    v = run.mem.get(("l", fr.id, pl.local))
                    while isinstance(v, Ref) and v.kind in ("mut", "box"):
                        if v.cell[0] == "l":
                            if v.cell[1] != fr.id:
                                raise Unsupported("loop writes through a reference to another frame")
                            out.add(v.cell[2])
                            v = None
                        elif v.cell[0] == "d" and not v.cell[1].startswith("a place from a worklist"):
                            v = None
                        else:
                            t = v.ty
                            run.store(v.cell, v.path, run.new("loop", t))
                            v = None
    return out

def storage_in(fn, body):
    return {st[2] for b in body for st in fn.blocks[b] if st[0] == "storage" and st[1] == "Live"}

def loop_head(run, fr, h, body):
    heads = sorted(fr.fn.loops())
    n = heads.index(h)
    view = View(run, fr)
    view.written, view.temps = loop_written(fr.fn, body), storage_in(fr.fn, body)
    spec = fr.loopspecs(view) if callable(fr.loopspecs) else (fr.loopspecs or {}).get(n)
    if spec is None:
        # a loop without invariant may only go round a few times, whatever the input: then following it is exact
        fr.seen_heads[h] = fr.seen_heads.get(h, 0) + 1
        if fr.seen_heads[h] > UNROLL:
            raise Unsupported("loop without invariant in " + fr.key)
        return
    where = "%s loop %d" % (fr.key, n)
    if isinstance(spec, TailLoop):
        return tail_head(run, fr, h, body, spec, view, where)
    if h in fr.headstate:
        for name, f in spec.inv(run, view):
            run.oblige("loop invariant preserved: " + name, f, where)
        if spec.decreases:
            d0 = fr.headstate[h][1]
            d1 = spec.decreases(run, view)
            run.oblige("loop variant decreases", z3.And(d1 >= 0, d1 < d0), where)
        # frame: what was not havocked is unchanged
        for cell, old in fr.headstate[h][0].items():
            new = run.mem.get(cell)
            if new is not old:
                try:
                    run.oblige("loop frame %s" % (cell,), run.eq(old, new), where)
                except Unsupported as e:
                    raise
        raise PathEnd()
    for name, f in spec.inv(run, view):
        run.oblige("loop invariant on entry: " + name, f, where)
    w = loop_written(fr.fn, body)
    temps = storage_in(fr.fn, body)
    havocked = set()
    for i in sorted(w):
        c = ("l", fr.id, i)
        if c in run.mem:
            if i in temps:
                del run.mem[c]; continue
            run.mem[c] = run.new("loop_%d" % i, subst_ty(fr.fn.locals[i], fr.subst))
            havocked.add(c)
    if spec.havoc:
        before = dict(run.mem)
        spec.havoc(run, view)
        for c, v in run.mem.items():
            if before.get(c) is not v:
                havocked.add(c)
    for name, f in spec.inv(run, view):
        run.assume(f)
    d = spec.decreases(run, view) if spec.decreases else None
    keep = {c: v for c, v in run.mem.items() if c not in havocked and not (c[0] == "l" and c[1] == fr.id and c[2] in temps)}
    fr.headstate[h] = (keep, d)
    run.trace.append(("loop", where))

def havoc_value(run, cell, name):
    """any value of the type, keeping what a loop over it cannot change (the sequence an iterator walks; what a struct of references points to)"""
    v = run.mem[cell]
    t = v.ty if isinstance(v, (Adt, Sym)) else None
    if t and strip_ty_generics(t) in vc.STRUCTS:
        run.havoc_target(Ref(cell, (), "mut", t), name, 0, [run.fresh(name, U)])
    elif is_iterator(v):
        run.mem[cell] = any_position(run, v, name)
    else:
        return False
    return True

def is_iterator(v):
    """an iterator over a sequence or map, or a struct around one"""
    if not isinstance(v, Adt) or v.variant is not None:
        return False
    if v.ty.startswith(("std::vec::IntoIter", "std::slice::Iter", "core::slice::Iter", "indexmap::map::")):
        return len(v.fields) == 2
    return len(v.fields) == 1 and is_iterator(v.fields[0])

def any_position(run, v, name):
    """the same iterator, anywhere"""
    if len(v.fields) == 1:
        return Adt(v.ty, None, [any_position(run, v.fields[0], name)])
    return Adt(v.ty, None, [v.fields[0], run.new(name, "usize")])

def tail_head(run, fr, h, body, spec, view, where):
    if len(run.frames) != 1:
        raise Unsupported("loop in an inlined function " + fr.key)
    def invs(kind):
        for name, f in (spec.inv(run, view) if spec.inv else []):
            run.oblige("loop invariant %s: %s" % (kind, name), f, where)
    b = run.fresh("enter:" + spec.name, BOOL)
    if spec.entry and h not in fr.headstate:
        spec.entry(view)      # which variable plays which part, by what it holds on entry
    # reaching the head again, or (once) a loop inside or after the one under way
    if h in fr.headstate or getattr(run, "loop_init", None) and run.choose([b, z3.Not(b)]) == 0:
        invs("at the next pass")
        if h in fr.headstate and spec.decreases:
            d0, d1 = fr.headstate[h], spec.decreases(run, view)
            run.oblige("loop variant decreases", z3.And(d1 >= 0, d1 < d0), where)
        raise Tail(spec.name, [run.copy_state(x) for x in spec.state(view)])
    if not getattr(run, "loop_init", None) and run.choose([b, z3.Not(b)]) == 0:
        invs("on entry")
        raise Tail(spec.name, [run.copy_state(x) for x in spec.state(view)])
    # any pass: everything the loop may change has any value
    for a in run.args_cells:
        run.havoc_target(a, "loop:" + spec.name, 0, [run.fresh("loop", U)]) or run.store(a.cell, a.path, run.new("loop", a.ty))
    for i in sorted(view.written | deref_written(run, fr, body)):
        c = ("l", fr.id, i)
        if c in run.mem:
            if i in view.temps:
                del run.mem[c]; continue
            if not havoc_value(run, c, "loop_%d" % i):
                run.mem[c] = run.new("loop_%d" % i, subst_ty(fr.fn.locals[i], fr.subst))
    if spec.havoc:
        spec.havoc(run, view)
    for name, f in (spec.inv(run, view) if spec.inv else []):
        run.assume(f)
    fr.headstate[h] = spec.decreases(run, view) if spec.decreases else None
    st = [run.copy_state(x) for x in spec.state(view)]
    for x in st:
        try:
            run.term(x)
        except Unsupported:
            pass
    run.loop_init = (spec, st, dict(run.mem))

# ------------------------------------------------------------------ calls
def exec_call(run, fr, st):
    _, dest, cal, argops, ret = st
    vals, tys = [], []
    for o in argops:
        v, t = eval_operand(run, fr, o)
        vals.append(v); tys.append(t)
    rty = place_ty(fr, dest) if dest is not None else "!"
    if cal[0] == "op":
        f, ft = eval_operand(run, fr, cal[1])
        return call_value(run, fr, f, vals, tys, rty)
    path = subst_ty(cal[1], fr.subst)
    return call_path(run, fr, path, vals, tys, rty)

def call_value(run, fr, f, vals, tys, rty):
    """call a function pointer / closure value with already spread arguments"""
    if isinstance(f, Ref):
        f = run.load(f.cell, f.path)
    if isinstance(f, FnDef):
        last = strip_generics(f.path).split("::")[-1]
        vs = run.enum_info(rty)[0] if last[:1].isupper() else None
        if vs is not None and last in vs:
            return Adt(rty, last, vals)
        return call_path(run, fr, f.path, vals, tys, rty)
    if isinstance(f, Adt) and f.ty.startswith("{closure@"):
        fn = run.ex.prog.closures.get(f.ty)
        if fn is None:
            raise Unsupported("closure body of " + f.ty)
        p0 = fn.params[0][1]
        self_arg = f
        if p0.startswith("&"):
            self_arg = run.mkref(f, "mut" if p0.startswith("&mut") else "shared", f.ty)
        sub = dict(run.frames[-1].subst) if run.frames else {}
        for (i, t), a in zip(fn.params[1:], tys):
            unify(t, a, sub)
        run.ex.inlined.add(fn.name)
        return run_fn(run, fn, [self_arg] + vals, fn.name, sub)
    if isinstance(f, (Sym,)) or is_z3(f):
        return uninterp(run, "call", [f] + vals, rty)
    raise Unsupported("call of %r" % (f,))

def canon(path):
    """canonical key of a call path"""
    p = path
    if p.startswith("<"):
        j = match_close(p, 0)
        inner, rest = p[1:j], p[j + 1:]
        parts = split_as(inner)
        meth = strip_generics(rest)[2:]
        if len(parts) == 2:
            return "<%s as %s>::%s" % (refshort(parts[0]), short(parts[1]), meth), parts[0], parts[1], meth
        return "%s::%s" % (short(parts[0]), meth), parts[0], None, meth
    q = strip_generics(p)
    m = re.match(r"([\w:]+)::<impl ([^<>]+(?:<.*>)?)>::(\w+)$", q)
    if m and not q.startswith(("core::", "std::", "alloc::", "serde::", "indexmap::")) and " for " not in m.group(2):
        return "%s::%s" % (short(m.group(2)), m.group(3)), None, None, m.group(3)
    return q, None, None, q.split("::")[-1]

def split_as(s):
    depth = 0; i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            depth -= 1
        elif depth == 0 and s.startswith(" as ", i):
            return [s[:i], s[i + 4:]]
        i += 1
    return [s]

def call_path(run, fr, path, vals, tys, rty):
    ex = run.ex
    key, selfty, trait, meth = canon(path)
    c = Call()
    c.path, c.key, c.args, c.tys, c.ret, c.gens = path, key, vals, tys, rty, last_generics(path)
    c.selfty, c.trait, c.method, c.frame = selfty, trait, meth, fr
    cand = ex.lookup(key, tys, trait, selfty)
    # 1. contract
    ck = ex.contract_key(key, cand, tys)
    if ck is not None and ck in ex.contracts and ex.contracts[ck].modular and not (ck == ex.cur and len(run.frames) == 0):
        con = ex.contracts[ck]
        if con.modular:
            ex.used_contracts.add(ck)
            return con.apply(run, vals, tys, rty, caller=fr.key if fr else "")
    # 2. intrinsics
    for h in ex.lib.find(key, path):
        r = h(run, c)
        if r is not NotImplemented:
            ex.used_lib.add(h.__name__)
            return r
    # 3. inline
    if cand is not None:
        if any(f.fn is cand for f in run.frames):
            raise Unsupported("recursive call of %s without contract" % key)
        sub = {}
        for (i, t), a in zip(cand.params, tys):
            unify(t, a, sub)
        bind_turbofish(ex, cand, c.gens, sub)
        ex.inlined.add(ex.key_of(cand))
        return run_fn(run, cand, vals, ex.key_of(cand), sub)
    # 4. opaque
    if key.startswith("<") and selfty is not None and is_param(selfty) or trait is not None and short(trait) in ABSTRACT_TRAITS:
        gen = selfty is None or is_param(selfty)
        return uninterp(run, "%s::%s" % (short(trait) if trait else "", meth) if gen else key, vals, rty)
    ex.opaque_ext[key] = ex.opaque_ext.get(key, 0) + 1
    if key not in run.imprecise:
        run.imprecise.append(key)
    return uninterp(run, key, vals, rty)

ABSTRACT_TRAITS = {"Visitor", "Serializer", "Deserializer", "DeserializeSeed", "Serialize", "Deserialize", "SerializeSeq", "SerializeMap", "SerializeStruct",
                   "SerializeTuple", "SerializeTupleStruct", "SerializeTupleVariant", "SerializeStructVariant", "SeqAccess", "MapAccess", "EnumAccess", "VariantAccess", "Hasher"}

def bind_turbofish(ex, fn, gens, sub):
    if not gens:
        return
    names = ex.generic_names(fn)
    if names and len(names) == len(gens):
        for n, g in zip(names, gens):
            sub.setdefault(n, g)

def mut_targets(run, v, out, seen=None):
    """cells reachable through &mut from a value"""
    if isinstance(v, Ref):
        if v.kind in ("mut",):
            out.append(v)
        elif v.kind == "box":
            try:
                mut_targets(run, run.load(v.cell, v.path), out)
            except Unsupported:
                pass
    elif isinstance(v, Adt):
        for f in v.fields:
            mut_targets(run, f, out)
    elif isinstance(v, Sym):
        for f in v.over.values():
            mut_targets(run, f, out)

def uninterp(run, name, vals, rty):
    """deterministic unknown function of its arguments (and what they point to);
    everything it holds &mut to gets a new, unknown but determined, value"""
    targets = []
    for v in vals:
        mut_targets(run, v, targets)
    ts = [run.term(v) for v in vals]
    if rty == "!":
        raise Panic(name)
    if not ts:
        res = run.mat(z3.Const("call:" + name + ":" + rty, sort_of(rty)), rty)
    else:
        res = run.mat(run.app(name, ts, sort_of(rty)), rty)
    for i, r in enumerate(targets):
        if run.havoc_target(r, name, i, ts):
            continue
        ty = r.ty
        old = run.load(r.cell, r.path)
        if is_z3(old):
            nv = run.app("%s!out%d" % (name, i), ts, old.sort())
            if ty in INTTY:
                nv = run.mat(nv, ty)
        elif isinstance(old, Adt) and old.variant is None and old.ty.startswith("("):
            nv = run.mat(run.app("%s!out%d" % (name, i), ts, U), old.ty)
        else:
            t = ty if ty != "?" else (old.ty if isinstance(old, (Adt, Sym)) else ty)
            nv = run.mat(run.app("%s!out%d" % (name, i), ts, sort_of(t)), t)
        run.store(r.cell, r.path, nv)
    return res
