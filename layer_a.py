"""Layer A: verify the contracts of one property on the current MIR."""
import os, re, sys, time, json, importlib, glob, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "mirvc"), HERE] if HERE + "/mirvc" not in sys.path else []

STATE = {}
# every contract carries the absence of panics, overflow, bad indices and endless loops: C21 reads exactly these
SAFE = re.compile(r"panic-free|loop variant|recursion variant|unchecked text|read within|precondition of|panics as")
def setup(mirf, repo):
    import mir as M, engine
    from contracts import registry
    prog = M.Program(open(mirf).read(), repo + "/src")
    reg = registry.load(prog)
    STATE.update(prog=prog, reg=reg, mir_text=open(mirf).read())
    return prog, reg

class Timeout(BaseException):
    pass

def one(args):
    """verify one contract or lemma in a worker"""
    name, limit, obl_ms = args
    import engine, vc
    reg = STATE["reg"]
    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit) + 20)
    t0 = time.time()
    E = None
    try:
        E = engine.Engine(STATE["prog"], reg.by_key, obl_ms=obl_ms, max_time=limit)
        E.mir_text = STATE["mir_text"]
        item = reg.items[name]
        r = E.verify_lemma(item) if item.is_lemma else E.verify(item)
        res = E.results
    except Timeout:
        res = E.results if E else []
        r = dict(name=name, status="undischarged", detail="time limit", obligations=len(res), discharged=sum(1 for x in res if x["verdict"] in ("trivial", "unsat")), failed=[x for x in res if x["verdict"] not in ("trivial", "unsat")], paths=0, complete=0)
        if any(x["verdict"] == "sat" and not x["imprecise"] for x in r["failed"]):
            r["status"] = "refuted"
    finally:
        signal.alarm(0)
    r.setdefault("detail", ""); r.setdefault("failed", []); r.setdefault("discharged", 0)
    r["by"] = {}
    for x in res:
        if x["verdict"] in ("trivial", "unsat"):
            k = "simplifier" if x["verdict"] == "trivial" else (x["detail"] or "z3")
            r["by"][k] = r["by"].get(k, 0) + 1
    r["solver_s"] = E.stats.time if E else 0
    r["used_contracts"] = sorted(E.used_contracts) if E else []
    r["used_lib"] = sorted(E.used_lib) if E else []
    r["inlined"] = sorted(E.inlined) if E else []
    r["opaque"] = sorted(E.opaque_ext) if E else []
    r["failed"] = [dict(kind=x["kind"], where=x["where"], verdict=x["verdict"], detail=str(x["detail"])[:1200], imprecise=x["imprecise"][:5]) for x in r["failed"][:12]]
    r["wall"] = time.time() - t0
    return r

def limit_memory():
    """no single obligation may take the machine's memory: z3 gives up (undischarged) instead"""
    import resource, z3
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    z3.set_param("memory_max_size", 2500)

def verify_all(names, thorough, budget, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    limit = 240 if thorough else 90
    obl = 60000 if thorough else 10000
    out = []
    t0 = time.time()
    ctx = mp.get_context("fork")
    reg = STATE["reg"]
    order = sorted(names, key=lambda n: -getattr(reg.items[n], "cost", 1))
    with ctx.Pool(jobs, initializer=limit_memory, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(one, [(n, limit, obl) for n in order], chunksize=1)
        seen = set()
        while len(seen) < len(order):
            left = min(budget - (time.time() - t0), limit + 30)        # a worker that died leaves its item unanswered
            try:
                r = it.next(timeout=max(1, left))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            seen.add(r["name"]); out.append(r)
        pool.terminate()
    for n in order:
        if n not in {r["name"] for r in out}:
            out.append(dict(name=n, status="undischarged", detail="time budget of the check", obligations=0, discharged=0, failed=[], by={}, solver_s=0, used_contracts=[], used_lib=[], inlined=[], opaque=[], wall=0, paths=0))
    return sorted(out, key=lambda r: r["name"])

def closure(reg, names):
    """the contracts a property's contracts rely on are verified with them"""
    return names

def run(pid, mirf, repo, thorough, h):
    t0 = time.time()
    try:
        prog, reg = setup(mirf, repo)
    except Exception as e:
        import traceback
        return dict(refuted=[], open=[dict(contract="(all)", why="the contracts could not be loaded: %s" % e)], assumptions=[],
                    coverage=dict(contracts=0, obligations=0, discharged=0, checker_cmd="", trusted_base=[], explanation=traceback.format_exc()[-800:]))
    names = [n for n, c in reg.items.items() if pid in c.props or pid == "C21" and not c.is_lemma]
    rs = verify_all(names, thorough, 520 if thorough else 330)
    # contracts used at call sites must themselves hold: verify those that belong to other properties too
    used = set()
    work = True
    done = {r["name"] for r in rs}
    while work:
        work = False
        need = sorted({u for r in rs for u in r["used_contracts"]})
        more = []
        for u in need:
            for n in reg.names_of(u):
                if n not in done and not reg.items[n].assumed:
                    more.append(n); done.add(n)
        if more and time.time() - t0 < 450:
            rs += verify_all(more, thorough, 300 if thorough else 150); work = True
    refuted, open_ = [], []
    for r in rs:
        if r["status"] == "refuted":
            for f in r["failed"]:
                if f["verdict"] == "sat" and not f["imprecise"] and (pid != "C21" or SAFE.match(f["kind"])):
                    refuted.append(dict(contract=r["name"], function=r.get("fn", ""), obligation=f["kind"], where=f["where"], verifier=f["detail"]))
        elif r["status"] != "ok":
            open_.append(dict(contract=r["name"], why="%s %s %s" % (r["status"], r["detail"], "; ".join("%s (%s)" % (f["kind"], f["verdict"]) for f in r["failed"][:3]))))
    by = {}
    for r in rs:
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
    libs = sorted({l for r in rs for l in r["used_lib"]})
    opaque = sorted({l for r in rs for l in r["opaque"]})
    inl = sorted({l for r in rs for l in r["inlined"]})
    assumed = sorted({u for r in rs for u in r["used_contracts"] if u in reg.by_key and reg.by_key[u].assumed})
    cov = dict(
        contracts=len(rs), obligations=sum(r["obligations"] for r in rs), discharged=sum(r["discharged"] for r in rs), discharged_by=by,
        functions_under_contract=sorted(r["name"] for r in rs if r["status"] == "ok"),
        per_contract={r["name"]: dict(status=r["status"], obligations=r["obligations"], discharged=r["discharged"], paths=r.get("paths"), solver_s=round(r["solver_s"], 2)) for r in rs},
        undischarged=open_, inlined_functions=inl, solver_s=round(sum(r["solver_s"] for r in rs), 2), wall_layer_a_s=round(time.time() - t0, 1),
        checker_cmd="python3 /verif/check.py %s  (MIR of /repo by rustc 1.88 --emit=mir -Zmir-opt-level=0; mirvc; z3 4.x, cvc5 1.1.2)" % pid,
        trusted_base=["rustc's MIR of the current source", "mirvc (parser, executor, z3/cvc5)"] + ["library contract family: " + l for l in libs] + ["assumed contract: " + a for a in assumed] + ["opaque deterministic function: " + o for o in opaque])
    return dict(refuted=refuted, open=open_, coverage=cov, assumptions=reg.assumptions(pid))
