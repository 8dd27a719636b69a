#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's current working tree.

Layer A  the MIR of the current source is verified, function by function, against the contracts under contracts/.
Layer B  a bounded stand-in over the public API: a failing input for whatever layer A does not (or cannot) decide.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: nothing could be decided (the tree does not build).
"""
import sys, os, time, json, subprocess, hashlib, shutil, glob, fcntl, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get("VERIF_NOVENV"):
    os.environ["VERIF_NOVENV"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
sys.path[:0] = [os.path.join(HERE, "mirvc"), HERE]
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOOL = "1.88.0-x86_64-unknown-linux-gnu"

def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml"]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(HERE + "/harness/src/*.rs")):
        h.update(open(f, "rb").read())
    return h.hexdigest()

def stale(td, tag, h):
    """forget cargo's fingerprint of the crate when the sources differ from those last built there"""
    mark = os.path.join(td, "built-from")
    if not os.path.exists(mark) or open(mark).read() != h:
        for d in glob.glob(td + "/*/.fingerprint/serde_yaml-*") + glob.glob(td + "/*/.fingerprint/stand-*"):
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(mark):
            os.unlink(mark)
    return mark

def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    return e

def build_mir(h):
    td = BUILD + "/mir"
    os.makedirs(td, exist_ok=True)
    out = BUILD + "/serde_yaml.mir"
    with open(BUILD + "/mir.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        mark = stale(td, "mir", h)
        if os.path.exists(mark) and os.path.exists(out):
            return out
        for f in glob.glob(td + "/debug/deps/serde_yaml-*.mir"):
            os.unlink(f)
        p = subprocess.run([HERE + "/mirvc/extract.sh", REPO, td, out], env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise RuntimeError("MIR extraction failed:\n" + p.stderr[-3000:])
        open(mark, "w").write(h)
    return out

def build_stand(h):
    td = BUILD + "/stand"
    os.makedirs(td, exist_ok=True)
    with open(BUILD + "/stand.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        mark = stale(td, "stand", h)
        exe = td + "/release/stand"
        if os.path.exists(mark) and os.path.exists(exe):
            return exe
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", td], cwd=HERE + "/harness", env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise RuntimeError("building the stand-in failed:\n" + p.stderr[-3000:])
        open(mark, "w").write(h)
    return exe

# ------------------------------------------------------------------ layer B
def run_stand(exe, pid, seed, thorough, budget):
    js = BUILD + "/stand-%s.json" % pid
    if os.path.exists(js): os.unlink(js)
    cmd = [exe, pid, "--seed", str(seed), "--budget", str(budget), "--json", js] + (["--thorough"] if thorough else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=budget + 180, cwd=BUILD)
        rc, out = p.returncode, p.stdout[-4000:] + p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, out = -999, "no answer within %d s" % (budget + 180)
    if rc in (0, 1) and os.path.exists(js):
        return json.load(open(js)), " ".join(cmd)
    # the process itself died (stack overflow, abort, hang): find the input by a single-threaded re-run
    live = BUILD + "/live-%s.txt" % pid
    if os.path.exists(live): os.unlink(live)
    try:
        subprocess.run(cmd + ["--live", live], capture_output=True, timeout=240, cwd=BUILD)
    except subprocess.TimeoutExpired:
        pass
    inp = open(live, errors="replace").read() if os.path.exists(live) else ""
    return dict(property=pid, rule="", evals=0, nontrivial=0, cases=0, samples=[], wall=0,
                fail=dict(case=-1, what="the process ended abnormally (code %s): %s" % (rc, out[-600:]), input=inp)), " ".join(cmd)

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(HERE + "/replay", exist_ok=True)
    h = tree_hash()
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(2)
    fs = tp.submit(build_stand, h)
    try:
        mirf = build_mir(h)
    except RuntimeError as e:
        print(e); fs.result(); sys.exit(2)
    import layer_a
    a = layer_a.run(pid, mirf, REPO, thorough, h)
    try:
        exe = fs.result()
    except RuntimeError as e:
        print(e); sys.exit(2)
    refuted = a["refuted"]
    open_ = a["open"]
    budget = (420 if thorough else 60) if not refuted and not open_ else (420 if thorough else 150)
    b, bcmd = run_stand(exe, pid, seed, thorough or bool(refuted) or bool(open_), budget)
    if not b.get("fail") and refuted:
        b2, _ = run_stand(exe, pid, seed + 1000, True, 120)
        if b2.get("fail"):
            b = b2
    level = {c["property"]: c["level"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]}.get(pid, "other")
    rp = HERE + "/replay/%s.json" % pid
    viol = None
    if b.get("fail"):
        json.dump(dict(property=pid, kind="failing input", what=b["fail"]["what"], input=b["fail"]["input"], case=b["fail"]["case"],
                       rerun=bcmd + " --only %s" % b["fail"]["case"], failed_obligations=refuted[:20], undischarged=open_[:20], tree=h), open(rp, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s" % (pid, rp)
    elif refuted:
        json.dump(dict(property=pid, kind="failed obligation", failed_obligations=refuted, tree=h,
                       note="the verifier refutes these obligations; no failing input was found by replaying", rerun="%s/check.py %s" % (HERE, pid)), open(rp, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
    cov = dict(a["coverage"])
    cov["bounded_stand_in"] = dict(label="bounded, never counted as proved", evaluations=b["evals"], distinct_nontrivial=b["nontrivial"], cases=b["cases"], rule=b["rule"], samples=b["samples"][:4], wall_s=b["wall"], cmd=bcmd)
    cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = b["evals"], b["nontrivial"], b["rule"], b["samples"][:4]
    if level == "other":
        cov["explanation"] = "contracts decide the functions listed under functions_under_contract; the remaining functions of the property are covered by the bounded stand-in only"
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=a["assumptions"], wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    for l in open(HERE + "/known_findings.txt"):
        l = l.rstrip("\n")
        if l.startswith("known: property=%s " % pid):
            print("KNOWN-FINDING: " + l[len("known: "):])
    c = a["coverage"]
    print("%s: %d contracts and lemmas, %d obligations, %d discharged, %d undischarged, %d refuted; stand-in: %d inputs, %d distinct non-trivial; %.1f s" % (
        pid, c["contracts"], c["obligations"], c["discharged"], len(open_), len(refuted), b["evals"], b["nontrivial"], time.time() - t0))
    for r in refuted[:8]:
        print("  refuted: %s: %s [%s]" % (r["contract"], r["obligation"], r.get("where", "")))
    for r in open_[:8]:
        print("  undischarged: %s: %s" % (r["contract"], r["why"]))
    if viol:
        if b.get("fail"):
            print("  %s\n  input: %s" % (b["fail"]["what"][:600], b["fail"]["input"][:600].encode("unicode_escape").decode()))
        print(viol)
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
