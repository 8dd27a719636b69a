#!/usr/bin/env python3
"""uncovered.py: functions of the crate neither under contract nor executed inside one, by file"""
import sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VENV: os.execv(VENV, [VENV] + sys.argv)
sys.path[:0] = [H + "/mirvc", H]
import layer_a, check, engine
mirf = check.build_mir(check.tree_hash())
prog, reg = layer_a.setup(mirf, os.environ.get("VERIF_REPO", "/repo"))
rs = layer_a.verify_all(list(reg.items), False, 900)
inl = {l for r in rs for l in r["inlined"]}
keys = {c.key for c in reg.items.values() if not c.is_lemma}
E = engine.Engine(prog, {})
n = {"contract": 0, "inlined": 0, "uncovered": 0}
seen = set()
for f in prog.all:
    if f.kind != "fn": continue
    try: k = E.key_of(f)
    except Exception as e: k = "??" + f.name
    if k in seen: continue
    seen.add(k)
    c = "contract" if k in keys else "inlined" if k in inl or f.name in inl else "uncovered"
    n[c] += 1
    if c == "uncovered": print(getattr(f, "rel", "") or "", "|", k)
print(n)
