#!/bin/bash
# Warms the Go build cache (plain and race) for the drivers; checks rebuild whatever they need themselves.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import vf, glob
c = vf.Ctx("setup", "quick", 1)
for d in sorted(os.listdir("drivers")):
    if d in ("vlib", "vs") or d.startswith("_"): continue
    for fl in ("plain", "race"):
        c.build(d, fl)
        print("built", d, fl)
import shutil; shutil.rmtree(c.bdir, ignore_errors=True); shutil.rmtree(c.odir, ignore_errors=True)
P
