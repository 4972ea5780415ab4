"""Shared machinery: build, TLC runs, pool of harness processes, evidence, findings and verdicts."""
import json, os, re, subprocess, sys, threading, time, queue, tempfile, shutil, select

V = "/verif"
BIN = V + "/build/target/debug/ferlium-verif"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
T0 = time.time()

class ToolError(Exception):
    pass

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def build():
    r = subprocess.run(["bash", V + "/tools/build.sh"], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(BIN):
        raise ToolError("build failed:\n" + r.stdout[-3000:] + r.stderr[-6000:])
    log("built")

# ---------------------------------------------------------------- TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcResult:
    def __init__(self):
        self.generated = 0; self.distinct = 0; self.lines = []; self.text = ""; self.depth = 0; self.violated = None

def tlc(module, constants=None, invariants=(), spec="Spec", view=None, properties=(), constraint=None, workers=None,
        timeout=600, extra=(), allow_violation=False, heap="8g", definitions=None, postcondition=None, files=None,
        coverage=False):
    """Run TLC on spec/<module>.tla in a scratch copy of the spec directory; returns counts and the printed JSON."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        for f in os.listdir(V + "/spec"):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(V, "spec", f), d)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                cfg.append("  %s = %s" % (k, json.dumps(v) if isinstance(v, str) else
                                          str(v).upper() if isinstance(v, bool) else v))
        for k, v in (definitions or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        if view: cfg.append("VIEW " + view)
        for i in invariants: cfg.append("INVARIANT " + i)
        for i in properties: cfg.append("PROPERTY " + i)
        if constraint: cfg.append("CONSTRAINT " + constraint)
        if postcondition: cfg.append("POSTCONDITION " + postcondition)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-workers",
               str(workers or NCPU), "-metadir", os.path.join(d, "states"), "-config", "run.cfg", "-fp", "1",
               *(["-coverage", "1"] if coverage else []), *extra, module + ".tla"]
        out = os.path.join(d, "out.txt")
        t = time.time()
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + module)
        res = TlcResult()
        other = []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        res.lines.append(json.loads(json.loads(line)))
                    except Exception:
                        raise ToolError("unreadable TLC output: " + line[:300])
                else:
                    other.append(line)
        res.text = "".join(other)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.text)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.text)
        if m: res.depth = int(m.group(1))
        m = re.search(r"Error: (?:Invariant|Action property|Temporal property) ?(\S*) is violated", res.text)
        if rc != 0:
            if allow_violation and rc in (12, 13):
                res.violated = m.group(1) if m else "property"
            else:
                raise ToolError("TLC failed on %s (%d):\n%s" % (module, rc, res.text[-int(__import__("os").environ.get("TLCTAIL","1500")):]))
        log("TLC %s: %d states, %d distinct, %d records, %.1fs" % (module, res.generated, res.distinct, len(res.lines), time.time() - t))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def scratch():
    d = V + "/build/scratch"
    os.makedirs(d, exist_ok=True)
    return d

# ---------------------------------------------------------------- harness workers
class Worker:
    def __init__(self, args=("worker",), env=None):
        self.args, self.env, self.p = args, env, None
    def start(self):
        e = dict(os.environ)
        e["FERLIUM_STD_CACHE_DIR"] = V + "/build/stdcache"
        e.update(self.env or {})
        self.p = subprocess.Popen([BIN, *self.args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, bufsize=0)
        self.buf = b""
    def stop(self):
        if self.p:
            try: self.p.kill()
            except Exception: pass
            self.p.wait(); self.p.stdin.close(); self.p.stdout.close(); self.p = None
    def call(self, job, timeout=120):
        """Result of the job; {"dead": code} if the process died, {"timeout": true} if it did not answer."""
        if self.p is None or self.p.poll() is not None:
            self.stop(); self.start()
        data = (json.dumps(job) + "\n").encode()
        try:
            self.p.stdin.write(data); self.p.stdin.flush()
        except BrokenPipeError:
            self.stop(); self.start()
            self.p.stdin.write(data); self.p.stdin.flush()
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop(); return {"timeout": True}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                c = os.read(self.p.stdout.fileno(), 1 << 20)
                if not c:
                    rc = self.p.wait(); self.stop(); return {"dead": rc}
                self.buf += c
        line, self.buf = self.buf.split(b"\n", 1)
        res = json.loads(line)
        if "panic" in res:
            self.stop()
        return res

def run_jobs(jobs, n=None, timeout=120, args=("worker",), env=None, progress=None):
    """Run the jobs on a pool of worker processes; results in order."""
    n = min(n or NCPU, max(1, len(jobs)))
    results = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)): q.put(i)
    err = []
    def loop():
        w = Worker(args, env)
        try:
            while not err:
                try: i = q.get_nowait()
                except queue.Empty: return
                r = w.call(jobs[i], timeout)
                if "dead" in r and "panic" not in r:
                    r = w.call(jobs[i], timeout)     # a fresh process decides
                results[i] = r
        except Exception as e:
            err.append(e)
        finally:
            w.stop()
    ts = [threading.Thread(target=loop) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise ToolError("worker pool: %r" % err[0])
    return results

# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level, technique=None):
        self.prop, self.level = prop, level
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.samples = []
    def sample(self, s, limit=4):
        if len(self.samples) < limit: self.samples.append(s)
    def violation(self, what, replay):
        self.violations.append((what, replay))
    def known_finding(self, fid, what):
        self.known_hit.setdefault(fid, what)
    def finish(self):
        cov = dict(self.coverage)
        cov["samples"] = self.samples or ["none"]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(V + "/evidence", exist_ok=True)
        tmp = V + "/evidence/.%s.tmp" % self.prop
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.replace(tmp, V + "/evidence/%s.json" % self.prop)
        for fid, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.violations:
            d = V + "/build/replay"
            os.makedirs(d, exist_ok=True)
            path = "%s/%s.json" % (d, self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1)
            for w, _ in self.violations[:5]:
                log("violation:", w[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            sys.exit(1)
        log("held: %s" % json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, str))}))
        sys.exit(0)

def load_known(prop):
    p = V + "/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k.get("property") == prop and k.get("status") != "fixed"]

def main(fn):
    try:
        fn()
    except ToolError as e:
        log("TOOL ERROR", str(e)); sys.exit(2)
