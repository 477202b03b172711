#!/usr/bin/env python3
"""seed.py FILE...: creates and confirms seeded bugs (development only). A file holds several blocks:
#id X / #property P / #needs ... / #breaks ... / #args extra go test args / #patch / ####file OLD ==== NEW / #demo / go test / #end"""
import sys, os, subprocess, json, shutil, tempfile
DEMO = '''#!/bin/bash
# Runs demo_test.go (laid into the module by an overlay). Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
[ -d /opt/veriftools/go1.27.3 ] && export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
printf '{"Replace":{"%s/internal/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/o.json"
go test -c -vet=off ARGS -o "$tmp/demo.test" -overlay "$tmp/o.json" ./internal/zzdemo || { rm -rf "$tmp"; exit 3; }
( cd "$tmp" && timeout 200 ./demo.test -test.v )
rc=$?
rm -rf "$tmp"
exit $rc
'''
def blocks(txt):
    for b in txt.split("\n#id ")[1:] if not txt.startswith("#id ") else ("\n" + txt).split("\n#id ")[1:]:
        d = {}; lines = b.split("\n"); d["id"] = lines[0].strip(); cur = None
        for ln in lines[1:]:
            if ln.startswith("#end"): cur = None; continue
            if ln.startswith("#patch"): cur = "patch"; d[cur] = []; continue
            if ln.startswith("#demo"): cur = "demo"; d[cur] = []; continue
            if cur: d[cur].append(ln); continue
            if ln.startswith("#"):
                k, v = ln[1:].split(" ", 1); d[k] = v
        yield d
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in sys.argv[1:]:
    for d in blocks(open(f).read()):
        t = tempfile.mkdtemp(prefix="/tmp/seed."); r = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True); run(["git", "checkout", "-q", "--", "."], r)
        for blk in "\n".join(d["patch"]).split("####")[1:]:
            fn, rest = blk.split("\n", 1); old, new = rest.split("\n====\n"); new = new.rstrip("\n"); fn = fn.strip()
            s = open(f"{r}/{fn}").read()
            assert s.count(old) >= 1, (d["id"], fn, old)
            open(f"{r}/{fn}", "w").write(s.replace(old, new, 1))
        patch = run(["git", "diff"], r).stdout
        o = "/verif/seeded/" + d["id"]; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(patch)
        open(o + "/demo.sh", "w").write(DEMO.replace("ARGS", d.get("args", ""))); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo_test.go", "w").write("\n".join(d["demo"]) + "\n")
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(o + "/meta.json", "w"), indent=1)
        a = run([o + "/demo.sh"], r); run(["git", "checkout", "-q", "--", "."], r); b = run([o + "/demo.sh"], r)
        run(["git", "apply", o + "/patch.diff"], r)
        env = dict(os.environ, ZV_REPO=r)
        for _ in range(3):  # some tests depend on timing
            ts = run(["/verif/tools/testrepo.sh", r], r, env=env).stdout.strip()
            if "missing: []" in ts or "BUILDFAIL" in ts: break
        ok = a.returncode not in (0, 3) and b.returncode == 0 and "missing: []" in ts
        print(d["id"], "OK" if ok else "BAD", "patched rc", a.returncode, "clean rc", b.returncode, ts, flush=True)
        if not ok: print(a.stdout[-1500:], "\n---clean\n", b.stdout[-1500:])
        shutil.rmtree(t)
