#!/usr/bin/env python3
"""runc.py [regex] [-v] [-j N]: verify the contracts whose name or property matches (development aid)"""
import sys, os, re, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VENV: os.execv(VENV, [VENV] + sys.argv)
sys.path[:0] = [H + "/mirvc", H]
import layer_a
import check
mirf = os.environ.get("MIR") or check.build_mir(check.tree_hash()); repo = os.environ.get("VERIF_REPO", "/repo")
prog, reg = layer_a.setup(mirf, repo)
pat = next((a for a in sys.argv[1:] if not a.startswith("-")), "")
names = [n for n, c in reg.items.items() if re.search(pat, n) or set(pat.split("|")) & set(c.props)]
t = time.time()
if "-1" in sys.argv:
    import engine, traceback
    for n in names:
        E = engine.Engine(prog, reg.by_key, obl_ms=10000); E.mir_text = layer_a.STATE["mir_text"]
        it = reg.items[n]
        r = E.verify_lemma(it) if it.is_lemma else E.verify(it)
        print(n, {k: v for k, v in r.items() if k not in ("failed",)})
        for f in r.get("failed", []): print("   ", f["kind"], f["where"], f["verdict"], f["imprecise"], "path", f["path"], str(f["detail"])[:1500])
        if hasattr(E, "tb"): print(E.tb)
        print("   opaque", dict(E.opaque_ext))
else:
    rs = layer_a.verify_all(names, "-t" in sys.argv, 900)
    bad = [r for r in rs if r["status"] != "ok"]
    for r in (rs if "-v" in sys.argv else bad):
        print("%-12s %s  obl %d/%d paths %s %.1fs %s" % (r["status"], r["name"], r["discharged"], r["obligations"], r.get("paths"), r["wall"], r["detail"][:160]))
        for f in r["failed"][:4]: print("      ", f["kind"], f["verdict"], f["imprecise"], f["detail"][:200])
    print("%d contracts, %d ok, %d obligations, %.1fs" % (len(rs), len(rs) - len(bad), sum(r["obligations"] for r in rs), time.time() - t))
