"""Glue: program + library + contracts -> verification of one function."""
import os, re, time, json, hashlib
import z3
import mir as M
from mir import norm_ty, short, refshort, strip_generics, split_top
from vc import *
from exe import *
import exe, lib, lib2, lib3, lib4, lib5, lib6

class Contract:
    def __init__(self, key, spec, args=None, pre=None, loops=None, modular=True, panics=False, props=(), doc="", name=None, assume=(), retkind=None, post=None, bodyless=False, opaque=False, ensures=None, rank=None, lax=None):
        self.key, self.spec, self.args, self.pre = key, spec, args, pre
        self.loops, self.modular, self.panics = loops or {}, modular, panics
        self.props, self.doc, self.name = tuple(props), doc or (spec.__doc__ or "").strip() if spec else doc, name or key
        self.post = post
        self.bodyless = bodyless
        self.opaque = opaque          # at call sites: an unknown but fixed function; its contract is its defining equation
        self.ensures = ensures
        self.lax = lax                # lax(c, mem_code, mem_spec, *args): drop from the comparison state that no statement speaks of
        self.rank = rank              # (group, measure): calls within a group of recursive functions must lower the measure

    def apply(self, run, vals, tys, rty, caller=""):
        """use the contract at a call site"""
        if self.pre is not None:
            for name, f in self.pre(run, *vals):
                run.oblige("precondition of %s: %s" % (self.key, name), f, caller)
        if self.rank is not None and getattr(run, "rank0", None) and run.rank0[0] == self.rank[0]:
            m = self.rank[1](run, *vals)
            run.oblige("recursion variant decreases (%s)" % self.key, z3.And(m >= 0, m < run.rank0[1]), caller)
        if self.opaque:
            if callable(self.opaque):
                return self.opaque(SpecCtx(run, tys, rty), *vals)
            return uninterp(run, self.key, vals, rty)
        sc = SpecCtx(run, tys, rty)
        return spec_call(self.spec, sc, *vals)

class Return(Exception):
    """early return from a specification (the ? of Rust)"""
    def __init__(self, v):
        self.v = v

def spec_call(f, sc, *vals):
    try:
        return f(sc, *vals)
    except Return as r:
        return r.v

class SpecCtx:
    """what a spec function works with: forwards to the run"""
    def __init__(self, run, tys, rty):
        self.run, self.tys, self.ret = run, tys, rty
    def __getattr__(self, n):
        return getattr(self.run, n)
    def panic(self, why="documented panic"):
        raise Panic(why)
    def tail(self, name, *state):
        raise Tail(name, state)

class Engine(Explorer):
    def __init__(self, prog, contracts, **kw):
        super().__init__(prog, lib.LIB, contracts, **kw)
        self._gn = {}
        self.cur = None

    # ---- names
    def key_of(self, fn):
        k = getattr(fn, "_key", None)
        if k is not None:
            return k
        if fn.selfty is None:
            k = fn.name
        elif fn.trait is None:
            k = "%s::%s" % (short(fn.selfty), fn.method)
        else:
            k = "<%s as %s>::%s" % (refshort(fn.selfty), short(fn.trait), fn.method)
        c = self.prog.by_key.get(k, [])
        c = [f for f in c if f.kind == fn.kind]
        if len(c) > 1:
            extra = None
            if fn.trait and fn.trait.endswith(">"):
                extra = "<%s>" % ",".join(refshort(a) for a in ty_args(fn.trait))
                same = [f for f in c if f.trait and f.trait.endswith(">") and "<%s>" % ",".join(refshort(a) for a in ty_args(f.trait)) == extra and f.modpath == fn.modpath]
                if len(same) > 1:
                    extra = None
            if extra is None and fn.trait:
                two = lambda f: "::".join(strip_ty_generics(f.trait).split("::")[-2:]) if f.trait else ""
                if sum(1 for f in c if two(f) == two(fn)) == 1 and len({short(f.trait) for f in c if f.trait}) == 1:
                    extra = "of " + two(fn)
            if extra is None:
                mods = [f for f in c if getattr(f, "modpath", "") == getattr(fn, "modpath", "") and f.rel == fn.rel] if fn.selfty else c
                if len(mods) == 1:
                    extra = "in " + fn.rel
                    if sum(1 for f in c if f.rel == fn.rel) > 1:
                        extra = "in " + re.split(r"::<impl|::$", fn.modpath)[0]
                else:
                    extra = "(" + ", ".join(t for _, t in fn.params) + ")"
                    if sum(1 for f in c if [t for _, t in f.params] == [t for _, t in fn.params]) > 1:
                        extra += fn.name if fn.selfty is None else " in " + fn.name
            k = k + " " + extra
        fn._key = k
        return k

    def lookup(self, key, tys, trait, selfty):
        """Fn with a body for a canonical call key, or None"""
        c = self.prog.by_key.get(key)
        if c is None and not key.startswith("<"):
            parts = key.split("::")
            if len(parts) >= 2:
                c = self.prog.by_key.get("::".join(parts[-2:]))
                if c is not None:
                    # the module must agree
                    mod = "::".join(parts[:-2])
                    c = [f for f in c if f.selfty is None and f.name == key or f.selfty is not None and (mod == "" or not mod.startswith(("std", "core", "alloc", "indexmap", "serde::", "unsafe_libyaml"))) and (getattr(f, "modpath", "").rstrip(":") == mod or "<impl" in getattr(f, "modpath", "") or getattr(f, "modpath", "").rstrip(":").startswith(mod) or mod.startswith(getattr(f, "modpath", "").rstrip(":")))]
        if c is None and key.startswith("<") and selfty is not None and selfty.strip().startswith("&"):
            pass
        if not c and trait is not None:
            # macro generated impls ("?"), and impls on a type parameter
            c = self.prog.by_key.get(re.sub(r" as \w+>::", " as ?>::", key))
        if not c and key.startswith("<&") and trait is not None:
            # an impl for references to anything
            for T_ in ("T", "D", "S"):
                c = c or self.prog.by_key.get(re.sub(r"^<(&mut |&).* as ", lambda m: "<%s%s as " % (m.group(1), T_), key))
        if not c:
            return None
        c = [f for f in c if f.kind == "fn"]
        if selfty is not None:
            # a method of a type of the same name elsewhere
            bare = lambda t: strip_ty_generics(re.sub(r"^(&mut |&)+", "", t.strip()))
            sp = bare(selfty)
            own = lambda f: bare(f.params[0][1]) if f.params and "_1" in f.debug.get("self", []) else None
            if sp.startswith(("std::", "core::", "alloc::", "indexmap::")):
                c = [f for f in c if own(f) is None or own(f) == sp or "::" not in own(f) or own(f).startswith(("std::", "core::", "alloc::"))]
            elif len(c) > 1 and "::" in sp:
                c = [f for f in c if own(f) == sp] or c
        if len(c) > 1:
            exact = [f for f in c if [t for _, t in f.params] == list(tys)]
            c = exact if len(exact) == 1 else c
        if len(c) > 1:
            # disambiguate by trait generics, self type, then parameter types
            if trait is not None:
                c2 = [f for f in c if f.trait and norm_cmp(f.trait, trait)]
                if not c2 and short(trait) in ("PartialEq", "PartialOrd") and (selfty or "").startswith("&"):
                    return None        # std's comparison of references
                c = c2 or c
                if len(c) > 1:
                    two = lambda t: "::".join(strip_ty_generics(norm_ty(t)).split("::")[-2:])
                    c2 = [f for f in c if f.trait and two(f.trait) == two(trait)]
                    c = c2 or c
            if len(c) > 1 and selfty is not None:
                c2 = [f for f in c if ty_match(f.params[0][1] if f.params and "self" in f.debug else f.selfty, tys[0] if f.params and "self" in f.debug else selfty)]
                c = c2 or c
            if len(c) > 1:
                c2 = [f for f in c if len(f.params) == len(tys) and all(ty_match(p, t) for (_, p), t in zip(f.params, tys))]
                c = c2 or c
            if len(c) > 1 and selfty is not None:
                mp = "::".join(strip_ty_generics(re.sub(r"^(&mut |&)+", "", selfty)).split("::")[:-1])
                c2 = [f for f in c if getattr(f, "modpath", "").rstrip(":") == mp]
                c = c2 or c
            if len(c) > 1 and all(f.selfty is None and f.name == c[0].name for f in c):
                c = c[:1]          # constructor functions are printed once per use kind
            if len(c) > 1:
                raise Unsupported("ambiguous callee %s (%d candidates)" % (key, len(c)))
        return c[0] if c else None

    def contract_key(self, key, cand, tys):
        if cand is not None:
            return self.key_of(cand)
        return key if key in self.contracts else None

    def generic_names(self, fn):
        if fn.name in self._gn:
            return self._gn[fn.name]
        names = None
        txt = None
        if getattr(fn, "rel", None):
            src = self.prog.src[fn.rel]
        else:
            mod = fn.name.split("::")[:-1]
            src = None
            for k in range(len(mod), -1, -1):
                for cnd in ("src/" + "/".join(mod[:k]) + ".rs", "src/" + "/".join(mod[:k]) + "/mod.rs", "src/lib.rs" if k == 0 else ""):
                    if cnd in self.prog.src and src is None:
                        src = self.prog.src[cnd]
        if src:
            m = re.search(r"\bfn\s+%s\s*<" % re.escape(fn.method), src)
            if m:
                e = M.match_close(src, m.end() - 1)
                names = []
                for g in split_top(src[m.end():e]):
                    g = g.split(":")[0].strip()
                    if not g.startswith("'"):
                        names.append(g)
        self._gn[fn.name] = names
        return names

    # ---- constants
    def eval_path_const(self, run, fr, p):
        m = re.match(r"(.*)::promoted\[(\d+)\]$", p)
        if m:
            name = fr.fn.name + "::promoted[%s]" % m.group(2)
            c = self.prog.fns.get(name)
            if not c:
                # promoted of another function (inlined const): resolve by suffix
                raise Unsupported("promoted " + p)
            after = [f for f in c if f.line > fr.fn.line]
            f = min(after, key=lambda f: f.line) if after else c[0]
            return run_const(run, f), subst_ty(f.ret, fr.subst)
        r = lib.const_value(run, p)
        if r is not None:
            return r
        # a constant of this function
        own = self.prog.fns.get(fr.fn.name + "::" + p.split("::")[-1])
        if own and own[0].kind == "const":
            return run_const(run, own[0]), own[0].ret
        # unit struct / enum constant, or const item
        key, selfty, trait, meth = canon(p)
        c = [f for f in self.prog.by_key.get(key, []) if f.kind == "const"]
        if not c and not key.startswith("<"):
            c = [f for f in self.prog.by_key.get("::".join(key.split("::")[-2:]), []) if f.kind == "const"]
        if not c and key.startswith("<"):
            # <mapping::HashLikeValue as Hash>::hash::STRING
            short_ = key.split("::")[-1]
            c = [f for f in self.prog.all if f.kind == "const" and f.name.endswith("::" + short_) and key.split("::")[-2] in f.name]
        if c:
            return run_const(run, c[0]), c[0].ret
        if lib.is_zst_const(p):
            return Adt(p, None, []), p
        return FnDef(p), "fn:" + p

    def eval_alloc(self, run, fr, alloc, ty):
        m = re.search(r"^%s \(static: (.*), size: " % alloc, self.mir_text, re.M)
        if m:
            p = m.group(1)
            tail = "::".join(p.split("::")[-2:])
            c = [f for f in self.prog.all if f.kind == "const" and (f.name == p or f.name.endswith("::" + tail) and f.name.split("<")[0] == p.split("<")[0])]
            c = c[:1] if len({f.name for f in c}) == 1 else []
            if c:
                cell = ("static", c[0].name)
                if cell not in run.mem:
                    run.mem[cell] = run_const(run, c[0])
                return Ref(cell, (), "shared", pointee(ty))
        raise Unsupported("alloc const")

    def aggregate(self, run, fr, path, fs, dest_ty):
        p = strip_generics(path)
        last = p.split("::")[-1]
        base = strip_ty_generics(dest_ty)
        vs, d = run.enum_info(dest_ty)
        if vs is not None and last in vs and (len(p.split("::")) >= 2):
            return Adt(dest_ty, last, fs)
        return Adt(dest_ty, None, fs)

    def verify_lemma(self, lem):
        """a closed statement over the contracts: build(run) obliges its parts"""
        self.cur = lem.name
        n0 = len(self.results)
        t0 = time.time()
        status, detail, paths = "ok", "", 0
        try:
            paths = self.explore(lambda run: lem.build(SpecCtx(run, [], "()")))
        except (Unsupported, M.MirError) as e:
            status, detail = "unsupported", str(e)
        except Panic as e:
            status, detail = "unsupported", "panic in a lemma: " + e.why
        except Exception as e:
            import traceback
            status, detail = "unsupported", "%s: %s" % (type(e).__name__, e)
            self.tb = traceback.format_exc()
        rs = self.results[n0:]
        bad = [r for r in rs if r["verdict"] not in ("trivial", "unsat")]
        if status == "ok":
            if not rs:
                status = "vacuous"
            elif any(r["verdict"] == "sat" and not r["imprecise"] for r in bad):
                status = "refuted"
            elif bad:
                status = "undischarged"
        return dict(name=lem.name, status=status, detail=detail, paths=paths, complete=paths, obligations=len(rs),
                    discharged=sum(1 for r in rs if r["verdict"] in ("trivial", "unsat")), failed=bad, ms=int((time.time() - t0) * 1000), fn="lemma")

    # ---- verification of one contract
    def build_args(self, run, fn, con):
        out = []
        names = []
        inv = {}
        for n, pls in fn.debug.items():
            for p in pls:
                m = re.fullmatch(r"_(\d+)", p)
                if m and int(m.group(1)) <= len(fn.params):
                    inv.setdefault(int(m.group(1)), n)
        for i, t in fn.params:
            n = inv.get(i, "arg%d" % i)
            out.append(run.const("%s" % n, subst_ty(t, con_subst(con))))
            names.append(n)
        return out, names

    def resolve_contract(self, con):
        """the Fn a contract is about, or None (lost anchor)"""
        key = con.key
        for f in self.prog.all:
            if f.kind == "fn" and self.key_of(f) == key:
                return f
        return None

    def verify(self, con):
        """-> dict summary; obligations are appended to self.results"""
        self.cur = con.name
        fn = self.resolve_contract(con)
        n0 = len(self.results)
        t0 = time.time()
        if fn is None:
            return dict(name=con.name, status="lost-anchor", paths=0, obligations=0)
        reached = [0, 0]
        def body(run):
            args, names = self.build_args(run, fn, con)
            if con.args:
                r = con.args(run, args)
                if r is not None:
                    args = r
            if con.pre is not None:
                for name, f in con.pre(run, *args):
                    run.assume(f)
            for a in args:
                try:
                    run.term(a)          # force pointees into existence before the snapshot
                except Unsupported:
                    pass
            init = dict(run.mem)
            run.init = init
            run.loop_init = None
            run.args_cells = []
            for a in args:
                mut_targets(run, a, run.args_cells)
            def outcome(f):
                try:
                    return "value", f()
                except Panic as p:
                    return "panic", p
                except Tail as t:
                    return "tail", t
            run.rank0 = (con.rank[0], con.rank[1](run, *args)) if con.rank else None
            how, res = outcome(lambda: run_fn(run, fn, list(args), con.key, con_subst(con)))
            mem_code = run.mem
            run.rank0 = None
            reached[0] += 1
            if con.ensures is not None and how == "value":
                for name, f in con.ensures(run, args, res, init):
                    run.oblige(name, f, con.name)
            loop = run.loop_init
            if loop is not None:
                init = loop[2]
            # the specification, on a copy of the initial memory
            run.mem = {c: v for c, v in mem_code.items() if c[0] in ("static",)}
            run.mem.update(init)
            run.init = init
            sc = SpecCtx(run, [subst_ty(t, con_subst(con)) for _, t in fn.params], subst_ty(fn.ret, con_subst(con)))
            if con.post is not None:
                if how == "panic":
                    if not con.panics:
                        run.oblige("panic-free: " + res.why, z3.BoolVal(False), con.name)
                    return
                for name, f in con.post(sc, res, mem_code, *args):
                    run.oblige(name, f, con.name)
                reached[1] += 1
                return
            if loop is None:
                show, sres = outcome(lambda: spec_call(con.spec, sc, *args))
            else:
                show, sres = outcome(lambda: spec_call(loop[0].step, sc, args, *loop[1]))
            mem_spec = run.mem
            if how == "panic" or show == "panic":
                if how == show:
                    reached[1] += 1
                    run.oblige("panics as specified", z3.BoolVal(True), con.name)
                elif how == "panic":
                    run.oblige("panic-free: " + res.why, z3.BoolVal(False), con.name)
                else:
                    run.oblige("must panic (%s)" % sres.why, z3.BoolVal(False), con.name)
                return
            reached[1] += 1
            run.mem = mem_code
            if how != show:
                run.oblige("continues as specified (%s, specified: %s)" % (how, show), z3.BoolVal(False), con.name)
                return
            if how == "tail":
                if res.name != sres.name or len(res.state) != len(sres.state):
                    run.oblige("continues in loop %s" % sres.name, z3.BoolVal(False), con.name)
                    return
                for i, (x, y) in enumerate(zip(res.state, sres.state)):
                    run.oblige("state %d of loop %s" % (i, res.name), run.eq(x, y, mem_code, mem_spec), con.name)
            else:
                run.oblige("result", run.eq(res, sres, mem_code, mem_spec), con.name)
                if con.lax is not None:
                    con.lax(sc, res, mem_code, mem_spec, *args)
                    run.mem = mem_code
            for c in sorted(set(mem_code) | set(mem_spec), key=str):
                if c[0] != "d" or c in run.boxcells and "deref" not in c[1]:
                    continue        # boxes of by-value arguments belong to the function
                a, b = mem_code.get(c, run.matinit.get(c)), mem_spec.get(c, run.matinit.get(c))
                if a is b:
                    continue
                run.oblige("state after: %s" % nice(c), run.eq(a, b, mem_code, mem_spec), con.name)
        status = "ok"
        detail = ""
        try:
            paths = self.explore(body)
        except Unsupported as e:
            status, detail, paths = "unsupported", str(e), 0
        except M.MirError as e:
            status, detail, paths = "unsupported", "MIR: " + str(e), 0
        except Exception as e:
            import traceback
            status, detail, paths = "unsupported", "%s: %s" % (type(e).__name__, e), 0
            self.tb = traceback.format_exc()
        rs = self.results[n0:]
        if status == "ok":
            if reached[1] == 0 and not any(r["kind"].startswith("loop") for r in rs):
                status = "vacuous"
            bad = [r for r in rs if r["verdict"] not in ("trivial", "unsat")]
            if any(r["verdict"] == "sat" and not r["imprecise"] for r in bad):
                status = "refuted"
            elif bad:
                status = "undischarged"
        return dict(name=con.name, status=status, detail=detail, paths=paths, complete=reached[1], obligations=len(rs),
                    discharged=sum(1 for r in rs if r["verdict"] in ("trivial", "unsat")),
                    failed=[r for r in rs if r["verdict"] not in ("trivial", "unsat")], ms=int((time.time() - t0) * 1000), fn=fn.name)

def nice(c):
    return str(c[1])[:80]

def con_subst(con):
    return dict(getattr(con, "subst", {}) or {})

def run_const(run, f):
    return run_fn(run, f, [], f.name, {})

def norm_cmp(a, b):
    def n(x):
        x = norm_ty(x)
        if not x.endswith(">"):
            return short(x)
        return short(x) + "<" + ",".join(refshort(t) for t in ty_args(x)) + ">"
    return n(a) == n(b)

def ty_match(p, t):
    sub = {}
    if p is None:
        return True
    if p == t:
        return True
    def sh(x):
        return re.sub(r"[\w]+::", "", x)
    if sh(p) == sh(t):
        return True
    unify(p, t, sub)
    if sub:
        q = subst_ty(p, sub)
        return sh(q) == sh(t)
    return False
