#!/usr/bin/env python3
"""blind.py OUT WORKERS FILE...: for blocks `#id X / #property P.. / #patch / ####file OLD ==== NEW / #end`, builds and
tests a copy of /repo with the patch and runs the checks of the properties on it (development only)."""
import sys, os, subprocess, shutil, threading, tempfile, importlib.util
out, nw = sys.argv[1], int(sys.argv[2])
src = open("/verif/tools/seed.py").read().split("for f in sys.argv")[0]; exec(src)
todo = [d for f in sys.argv[3:] for d in blocks(open(f).read())]
for d in todo:
    for blk in "\n".join(d["patch"]).split("####")[1:]:
        fn, rest = blk.split("\n", 1); old, new = rest.split("\n====\n")
        if open(f"/repo/{fn.strip()}").read().count(old) < 1: print("NOT FOUND", d["id"], old)
it = iter(todo); lock = threading.Lock()
def work():
    while True:
        with lock: d = next(it, None)
        if d is None: return
        t = tempfile.mkdtemp(prefix="/tmp/bl/"); r = t + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", r], check=True); run(["git", "checkout", "-q", "--", "."], r)
            for blk in "\n".join(d["patch"]).split("####")[1:]:
                fn, rest = blk.split("\n", 1); old, new = rest.split("\n====\n"); new = new.rstrip("\n"); fn = fn.strip()
                s = open(f"{r}/{fn}").read()
                if s.count(old) < 1: raise Exception("not found " + old)
                open(f"{r}/{fn}", "w").write(s.replace(old, new, 1))
            env = dict(os.environ, ZV_REPO=r, ZV_WORK=t + "/w")
            for _ in range(3):
                ts = run(["/verif/tools/testrepo.sh", r], r, env=env).stdout.strip()
                if "missing: []" in ts or "BUILDFAIL" in ts: break
            res = "tests " + ("ok" if "missing: []" in ts else ts[-300:])
            for p in d["property"].split():
                c = run(["timeout", "900", "python3", "/verif/check", p, os.environ.get("TIER", "quick")], r, env=env)
                v = [l for l in c.stdout.split("\n") if "VIOLATION" in l]
                res += f" | {p} rc={c.returncode} " + (v[0][:200] if v else c.stdout.strip().split("\n")[-1][:200])
        except Exception as e: res = "ERR " + repr(e)[:300]
        with lock: open(out, "a").write(d["id"] + " :: " + res + "\n")
        shutil.rmtree(t, ignore_errors=True)
ths = [threading.Thread(target=work) for _ in range(nw)]
[t.start() for t in ths]; [t.join() for t in ths]
open(out, "a").write("done\n")
