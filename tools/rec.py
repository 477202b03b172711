#!/usr/bin/env python3
"""rec.py DRIVER TEST FLAVOUR N SEED OUT [MODE] [INSTRPKGS,..] : record traces (development)"""
import sys, os
sys.path.insert(0, "/verif/lib"); sys.dont_write_bytecode = True
os.environ.setdefault("ZV_WORK", "/tmp/recw")
import vf
d, t, fl, n, seed, out = sys.argv[1:7]
mode = sys.argv[7] if len(sys.argv) > 7 else ""
c = vf.Ctx("rec" + str(os.getpid()), "quick", 1)
exe = c.build(d, fl, (sys.argv[8].split(",") if len(sys.argv) > 8 else ("trace", "internal")))
print(len(c.record(exe, t, fl, int(n), int(seed), out, mode)), c.violations)
import shutil; shutil.rmtree(c.bdir); shutil.rmtree(c.odir)
