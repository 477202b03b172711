"""Framework: builds the drivers from /repo's working tree, records traces of the
real code, has TLC validate them against the specification, model-checks the
specification, writes evidence. Verdicts come only from real-code behaviour."""
import json, os, re, subprocess, sys, time, shutil, hashlib, threading, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")  # override: development only
WORK = os.environ.get("ZV_WORK", VERIF)
SPECS = os.path.join(VERIF, "specs")
DRV = os.path.join(VERIF, "drivers")
GOROOT = "/opt/veriftools/go1.27.3"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ZV = REPO + "/internal/zzv"


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
             GOFLAGS="-mod=readonly -buildvcs=false")
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "")
    for k in ("GOOS", "GOARCH"):
        e.pop(k, None)
    return e


def sh(cmd, timeout=600, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, env=env or go_env(), cwd=cwd or REPO, errors="replace")


def shard_cpus():
    return max(2, min(8, os.cpu_count() or 4))


class Ctx:
    """One check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.bdir = os.path.join(WORK, ".build", prop)
        self.odir = os.path.join(WORK, "out", prop)
        for d in (self.bdir, self.odir):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.lock = threading.Lock()
        self.violations = []     # dicts: kind, detail, trace, ...
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.detail = []         # per job
        self.known_hits = {}
        self.builds = {}
        self.errors = []
        self.pool = ThreadPoolExecutor(max_workers=shard_cpus())

    # ------------------------------------------------------------ building
    def instr_tool(self):
        with self.lock:
            if not hasattr(self, "_instr"):
                exe = os.path.join(self.bdir, "instr")
                r = sh(["go", "build", "-o", exe, os.path.join(VERIF, "tools/instr/main.go")], cwd="/")
                if r.returncode:
                    raise CheckError("instr build: " + r.stderr[-2000:])
                self._instr = exe
            return self._instr

    def build(self, driver, flavour="plain", instr_pkgs=()):
        """Builds drivers/<driver> inside the module by overlay; returns exe path."""
        key = (driver, flavour)
        d = os.path.join(self.bdir, f"{driver}-{flavour}")
        os.makedirs(d, exist_ok=True)
        repl = {}
        for sub in ("vlib", "vs", driver):
            for f in sorted(glob.glob(os.path.join(DRV, sub, "*.go"))):
                repl[f"{ZV}/{sub}/{os.path.basename(f)}"] = f
        if flavour.startswith("instr") and instr_pkgs:
            tool = self.instr_tool()
            files = []
            for p in instr_pkgs:
                r = sh(["go", "list", "-f", "{{range .GoFiles}}{{$.Dir}}/{{.}}\n{{end}}", "./" + p])
                if r.returncode:
                    raise CheckError("go list: " + r.stderr[-2000:])
                files += [x for x in r.stdout.split() if x]
            r = sh([tool, d] + files)
            if r.returncode:
                raise CheckError("instr: " + r.stderr[-2000:])
            for ln in r.stdout.splitlines():
                a, b = ln.split("\t")
                repl[a] = b
        # access to unexported state, which the driver can do without
        base, inp = os.path.join(DRV, "_inpkg", driver), {}
        for f in glob.glob(os.path.join(base, "**", "*.go"), recursive=True):
            inp[os.path.join(REPO, os.path.relpath(f, base))] = f
        exe = os.path.join(d, "drv.test")
        for tags in ([[], ["-tags", "zvnoinpkg"]] if inp else [[]]):
            ov = os.path.join(d, "overlay.json")
            json.dump({"Replace": dict(repl, **({} if tags else inp))}, open(ov, "w"))
            cmd = ["go", "test", "-c", "-o", exe, "-vet=off", "-overlay", ov] + tags
            if flavour.endswith("race"):
                cmd.append("-race")
            cmd.append("./internal/zzv/" + driver)
            r = sh(cmd, timeout=800)
            if r.returncode == 0 and os.path.exists(exe):
                break
        if r.returncode or not os.path.exists(exe):
            raise CheckError(f"driver build {key}: " + (r.stdout + r.stderr)[-3000:])
        return exe

    # ------------------------------------------------------------ recording
    def record(self, exe, test, flavour, n, seed, out, mode="", env=None, timeout=600):
        """Runs one driver process. Returns list of raw JSON lines (str)."""
        e = go_env()
        e.update(ZV_OUT=out, ZV_SEED=str(seed), ZV_N=str(n), ZV_MODE=mode, ZV_TIER=self.tier,
                 ZV_INSTR="1" if flavour.startswith("instr") else "0",
                 ZV_RACE="1" if flavour.endswith("race") else "0", GORACE="halt_on_error=0 exitcode=66")
        e.update(env or {})
        wd = out + ".d"
        os.makedirs(wd, exist_ok=True)
        try:
            r = subprocess.run([exe, "-test.run", f"^{test}$", "-test.timeout", "0"], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, cwd=wd, timeout=timeout, text=True, errors="replace")
            txt, rc = r.stdout + "\n" + r.stderr, r.returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"driver {test} timed out after {timeout}s")
        shutil.rmtree(wd, ignore_errors=True)
        if "WARNING: DATA RACE" in txt:
            for rep in txt.split("WARNING: DATA RACE")[1:]:
                rep = rep.split("==================")[0]
                fr = lib_frames(rep)
                if fr:
                    self.add_violation("data race", ", ".join(fr[:4]),
                                       dict(test=test, seed=seed, mode=mode, report=rep[:6000]))
                    break
            else:
                raise CheckError("race report without library frames:\n" + txt[-3000:])
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        raced = "WARNING: DATA RACE" in txt
        if rc not in (0, 66) and not (raced and rc == 1 and "race detected during execution of test" in txt):
            crash = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", txt, re.M)
            fr = lib_frames(txt)
            if crash and fr and "out of memory" not in crash.group(1):
                self.add_violation("crash", crash.group(1) + " in " + ", ".join(fr[:4]),
                                   dict(test=test, seed=seed, mode=mode, output=txt[-8000:]))
                lines = [ln for ln in lines if ln.endswith("}")]
            else:
                raise CheckError(f"driver {test} rc={rc}: {txt[-3000:]}")
        return lines

    def add_violation(self, kind, what, data):
        with self.lock:
            self.violations.append(dict(kind=kind, what=what, data=data))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, xmx="3g", dfs=False, extra=()):
        md = os.path.join(self.bdir, "tlc-" + hashlib.sha1(os.urandom(8)).hexdigest()[:10])
        os.makedirs(md)
        e = dict(os.environ)
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + xmx, "-Xss16m", "-XX:TieredStopAtLevel=" + ("4"), "-cp", JARS]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg,
                *extra, module]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               cwd=SPECS, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC {module} {cfg} timed out after {timeout}s")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    def model_check(self, module, cfg, workers=2, timeout=600, xmx="4g", must_states=1):
        t0 = time.time()
        rc, o = self.tlc(module, cfg, workers=workers, timeout=timeout, xmx=xmx)
        st = parse_states(o)
        if rc != 0 or "No error has been found" not in o or st is None:
            raise CheckError(f"model checking {module}/{cfg} rc={rc}:\n" + o[-3000:])
        with self.lock:
            self.cov["states"] += st[1]
            self.cov["transitions"] += st[0]
            self.detail.append(dict(job="model-check", module=module, cfg=cfg, states_generated=st[0],
                                    distinct_states=st[1], depth=depth_of(o), wall_s=round(time.time() - t0, 1)))

    def validate(self, lines, module, cfg, tag, timeout=600, dfs=True, env=None, xmx="3g"):
        """Trace-validates recorded traces. Returns list of (line, prefix) rejected."""
        if not lines:
            return []
        f = os.path.join(self.bdir, f"tr-{tag}.ndjson")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        ev = dict(ZV_TRACE=f, ZV_PROP=self.prop)
        ev.update(env or {})
        rc, o = self.tlc(module, cfg, env=ev, timeout=timeout, dfs=dfs, xmx=xmx)
        st = parse_states(o)
        m = re.search(r'<<"POST", (\d+), (\d+)>>', o)
        if st is None or not m:
            raise CheckError(f"trace validation {module} rc={rc}:\n" + o[:1500] + "\n...\n" + o[-2500:])
        rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJ", (\d+), (\d+)>>', o)]
        if int(m.group(1)) != len(lines) or int(m.group(2)) != len(rej):
            raise CheckError("trace validation bookkeeping mismatch:\n" + o[-2500:])
        if rej:
            if "is violated" in o and "POSTCONDITION" not in o.upper():
                raise CheckError("invariant violated in the trace specification:\n" + o[-3000:])
        elif rc != 0:
            raise CheckError(f"trace validation {module} rc={rc}:\n" + o[-3000:])
        with self.lock:
            self.cov["states"] += st[1]
            self.cov["transitions"] += st[0]
            self.cov["traces_validated_against_impl"] += len(lines)
        os.unlink(f)
        return [(lines[a - 1], b) for a, b in rej]

    # ------------------------------------------------------------ jobs
    def trace_job(self, driver, test, module, cfg=None, flavours=("plain",), n=200, shards=4, mode="",
                  instr=(), timeout=700, env=None, dedupe=True, dfs=True, n_race=None, n_instr=None, name=None, chunk=0):
        """Records n traces per shard per flavour, validates the distinct ones."""
        cfg = cfg or "Trace.cfg"
        tot = dist = 0
        t0 = time.time()
        futs = []
        for fl in flavours:
            futs.append((fl, self.pool_build(driver, fl, instr)))
        jobs = []
        for fl, fut in futs:
            exe = fut.result()
            cnt = n_race if (fl.endswith("race") and n_race) else n_instr if (fl == "instr" and n_instr) else n
            for s in range(shards):
                seed = self.seed * 100 + s + {"plain": 0, "instr": 1000, "race": 2000, "instr-race": 3000}[fl]
                out = os.path.join(self.bdir, f"{name or test}-{fl}-{s}.ndjson")
                jobs.append((fl, self.pool.submit(self._one, exe, test, fl, cnt, seed, out, mode, module, cfg,
                                                  timeout, env, dedupe, dfs, chunk)))
        for fl, j in jobs:
            a, b, sample = j.result()
            tot += a
            dist += b
            if sample and len(self.cov["samples"]) < 4:
                self.cov["samples"].append(sample)
        if tot == 0:
            raise CheckError(f"{test}: no traces recorded")
        with self.lock:
            self.detail.append(dict(job="trace-validation", driver=driver, test=test, mode=mode, spec=module,
                                    flavours=list(flavours), recorded=tot, distinct_validated=dist, wall_s=round(time.time() - t0, 1)))

    def pool_build(self, driver, fl, instr):
        with self.lock:
            k = (driver, fl)
            if k not in self.builds:
                self.builds[k] = self.pool.submit(self.build, driver, fl, instr)
            return self.builds[k]

    def _one(self, exe, test, fl, n, seed, out, mode, module, cfg, timeout, env, dedupe, dfs, chunk=0):
        t0 = time.time()
        lines, left, k = [], n, 0
        while left > 0:
            m = min(left, chunk or left)
            lines += self.record(exe, test, fl, m, seed + 100000 * k, out, mode, env, timeout)
            left, k = left - m, k + 1
        t1 = time.time()
        tot = len(lines)
        seen, uniq = set(), []
        for ln in lines:
            k = ln
            if '"e":"panic"' in ln or '"e":"hang"' in ln:
                tr = json.loads(ln)
                bad = [x for x in tr["ev"] if x.get("e") in ("panic", "hang")][0]
                self.add_violation(bad["e"], f"{test}/{fl} seed={tr.get('seed')} trace={tr.get('id')}: " + json.dumps(bad)[:900],
                                   dict(test=test, flavour=fl, mode=mode, event=bad, trace=tr))
                continue
            if dedupe:
                k = json.dumps(json.loads(ln)["ev"], sort_keys=True)
            h = hashlib.sha1(k.encode()).digest()
            if h not in seen:
                seen.add(h)
                uniq.append(ln)
        tag = os.path.basename(out)[:-7]
        rej = []
        CH = 4000
        for i in range(0, len(uniq), CH):
            rej += self.validate(uniq[i:i + CH], module, cfg, f"{tag}-{i}", timeout=timeout, dfs=dfs, env=env)
        if os.environ.get("ZV_DEBUG"):
            print("shard", tag, len(uniq), "record %.1fs validate %.1fs" % (t1 - t0, time.time() - t1), flush=True)
        for ln, pos in rej:
            tr = json.loads(ln)
            bad = tr["ev"][pos - 1] if pos - 1 < len(tr["ev"]) else None
            self.add_violation("trace rejected", f"{test}/{fl} seed={tr.get('seed')} trace={tr.get('id')}: event {pos} "
                               + json.dumps(bad)[:600],
                               dict(test=test, flavour=fl, mode=mode, spec=module, position=pos, event=bad, trace=tr))
        if os.path.exists(out):
            os.unlink(out)
        sample = None
        if uniq:
            s = min(uniq[:50], key=len)
            sample = json.loads(s)["ev"][:25]
        return tot, len(uniq), dict(driver_test=test, flavour=fl, seed=seed, events=sample) if sample else None

    # ------------------------------------------------------------ finishing
    def finish(self, assumptions=()):
        kf = load_known(self.prop)
        new = []
        for v in self.violations:
            sig = v["kind"] + ": " + v["what"] + " " + json.dumps(v["data"].get("trace", {}), sort_keys=True)[:200000]
            for k in kf:
                if re.search(k["match"], sig):
                    self.known_hits[k["id"]] = k["what"]
                    break
            else:
                new.append(v)
        for i, w in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.prop} {i}: {w}")
        for k in kf:
            if k["id"] not in self.known_hits and k.get("always"):
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        cov = dict(self.cov)
        cov["jobs"] = self.detail
        if not cov["samples"]:
            cov["samples"] = [dict(note="no trace sample")]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(WORK, "evidence"), exist_ok=True)
        with open(os.path.join(WORK, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        for i, v in enumerate(new[:5]):
            p = os.path.join(self.odir, f"violation-{i}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={self.prop} replay={p}")
            print("  " + v["kind"] + ": " + v["what"][:1200])
            rc = 1
        if len(new) > 5:
            print(f"  ... and {len(new) - 5} more")
        shutil.rmtree(self.bdir, ignore_errors=True)
        return rc


def lib_frames(txt):
    out = []
    for ln in txt.splitlines():
        m = re.match(r"\s*(go\.opencensus\.io/[^\s(]*(?:\([^)]*\))?[^\s(]*)\(", ln)
        if m and "/zzv/" not in m.group(1):
            out.append(m.group(1))
    return out


def parse_states(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if not m:
        return None
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def depth_of(o):
    m = re.search(r"depth of the complete state graph search is (\d+)", o)
    return int(m.group(1)) if m else None


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]
