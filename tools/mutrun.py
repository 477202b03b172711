#!/usr/bin/env python3
"""mutrun.py MUTS OUT WORKERS CAP SEED [FILESUBSTR]: mutation run (development). For a sample of
the mutants, those that build and pass the tests of their package's dependents are
given to the checks of the file's properties; OUT gets one JSON line each."""
import sys, json, random, subprocess, os, shutil, threading, collections
muts, out, nw, cap, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
sub = sys.argv[6] if len(sys.argv) > 6 else ""
sys.path.insert(0, "/verif/lib"); sys.dont_write_bytecode = True
import vf
MAP = [("trace/config.go", "C05 C01"), ("trace/sampling.go", "C02"), ("trace/export.go", "C03"), ("trace/lrumap.go", "C04"), ("trace/evictedqueue.go", "C04"),
       ("trace/spanbucket.go", "C06"), ("trace/spanstore.go", "C06 C07"), ("trace/status_codes.go", ""), ("trace/tracestate/", "C28"), ("trace/propagation/", "C26 C27"),
       ("trace/trace.go", "C01 C02 C03 C04 C06"), ("trace/", "C01 C04"), ("zpages/tracez", "C07"), ("zpages/rpcz", "C30"), ("zpages/", "C07 C30"),
       ("tag/map_codec", "C09"), ("tag/", "C08 C09"), ("stats/view/worker", "C10 C12 C13 C14 C15"), ("stats/view/aggregation_data", "C11 C10"), ("stats/view/collector", "C10 C11"),
       ("stats/view/view_to", "C14"), ("stats/view/", "C10 C12 C13"), ("stats/measure", "C31 C10"), ("stats/", "C10 C31"), ("internal/tagencoding", "C10 C17"), ("metric/test", "C32"), ("metric/metricexport", "C18"), ("metric/metricproducer", "C18"),
       ("metric/", "C16 C17"), ("plugin/runmetrics", "C19"), ("plugin/ochttp/propagation", "C26 C27"), ("plugin/ochttp/client", "C22 C23"), ("plugin/ochttp/trace.go", "C22 C20"), ("plugin/ochttp/server", "C20 C21"),
       ("plugin/ochttp/span_ann", "C34"), ("plugin/ochttp/route", "C21"), ("plugin/ochttp/", "C21 C23"), ("plugin/ocgrpc/trace", "C24"), ("plugin/ocgrpc/stats", "C25"), ("plugin/ocgrpc/", "C25 C24"), ("resource", "C29"), ("exporter/stackdriver", "C26 C27")]
def props(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
    return []
by = collections.defaultdict(list)
for l in open(muts):
    m = json.loads(l)
    if sub in m["file"]: by[m["file"]].append(m)
R = random.Random(seed); todo = []
for f in sorted(by):
    R.shuffle(by[f]); todo += by[f][:cap]
R.shuffle(todo)
if os.path.exists(out):
    done = {(json.loads(l)["file"], json.loads(l)["off"], json.loads(l)["new"]) for l in open(out)}
    todo = [m for m in todo if (m["file"], m["off"], m["new"]) not in done]
lock = threading.Lock(); it = iter(todo)
deps = {}
def dependents(d):
    return deps.get(d, [])
env = vf.go_env()
lst = json.loads("[" + subprocess.run(["go", "list", "-test", "-json=ImportPath,Deps", "./..."], cwd="/repo", env=env, capture_output=True, text=True).stdout.replace("}\n{", "},{") + "]")
for p in lst:
    n = p["ImportPath"].split(" ")[0]
    if n.endswith(".test"): n = n[:-5]
    n = n.removesuffix("_test")
    for q in p.get("Deps", []) + [n]:
        q = q.split(" ")[0]
        if q.startswith("go.opencensus.io"): deps.setdefault(q, set()).add(n)
def work(i):
    base = f"/tmp/mw{i}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    repo = base + "/repo"; subprocess.run(["cp", "-a", "/repo", repo]); subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
    while True:
        with lock:
            m = next(it, None)
        if m is None: break
        f = os.path.join(repo, m["file"]); src = open(f, "rb").read()
        open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        try:
            pkg = "go.opencensus.io/" + os.path.dirname(m["file"])
            b = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
            if b.returncode: m["res"] = "nobuild"
            else:
                try:
                    t = subprocess.run(["go", "test", "-timeout", "60s", "-count=1"] + sorted(deps.get(pkg, {pkg})), cwd=repo, env=env, capture_output=True, text=True, timeout=150)
                    bad = t.returncode
                except subprocess.TimeoutExpired: bad = 1
                if bad: m["res"] = "killed"
                else:
                    m["res"] = "MISSED"; m["checks"] = {}
                    for c in props(m["file"]):
                        e = dict(os.environ, ZV_REPO=repo, ZV_WORK=base + "/w", VERIF_SEED="1")
                        try:
                            r = subprocess.run(["python3", "/verif/check", c, "quick"], env=e, capture_output=True, text=True, timeout=900)
                            m["checks"][c] = r.returncode
                        except subprocess.TimeoutExpired: m["checks"][c] = "timeout"
                        if m["checks"][c] == 1: m["res"] = "caught"; break
                        if m["checks"][c] != 0: m["res"] = "broken"; m["err"] = (r.stdout + r.stderr)[-600:]
        finally:
            open(f, "wb").write(src)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done")
