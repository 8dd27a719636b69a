#!/bin/bash
# builds the stand-in and extracts the MIR once, offline
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replay
/opt/veriftools/pyvenv/bin/python3 - <<'P'
import sys; sys.path.insert(0, ".")
import os
os.environ["VERIF_NOVENV"] = "1"
import check
h = check.tree_hash()
check.build_mir(h); check.build_stand(h)
print("setup done")
P
