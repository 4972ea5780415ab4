"""Replay of spec/Seqs.tla: pipelines of iterators and sequence functions (C24)."""
import vlib
MODES = ("hir", "mir", "opt")
def modes(l):
    # known finding F20: outside the hir mode, effects of functions given to adaptors can be lost
    return MODES if l["p"]["quiet"] else MODES[:1]
def num(n): return str(n) if n >= 0 else "(-%d)" % -n
def arr(q): return "[%s]" % ", ".join(num(x) for x in q)
def src(s):
    if s["k"] == "arr": return "arr", "([%s]: [int])" % ", ".join(num(x) for x in s["q"])
    return "rng", "(%s%s%s)" % (num(s["lo"]), "..=" if s["inc"] else "..", num(s["hi"]))
def call(f):
    """what a call of a function argument does besides its value; y: its argument"""
    return ("host::tap(y); " if f["t"] else "") + ("idiv(7, y - %s); " % num(f["b"]) if f["fl"] else "")
def pred(f): return {"lt": "y < %s" % num(f["a"]), "ge": "y >= %s" % num(f["a"]), "ne": "y != %s" % num(f["a"]), "even": "mod(y, 2) == 0", "no": "y != y"}.get(f["o"], "y == y")
def fn(f): return {"aff": "y * %d + %s" % (f["a"], num(f["b"])), "neg": "%s - y" % num(f["b"]), "mod": "mod(y, %d)" % f["a"]}.get(f["o"], "y")
def lam(f, body): return "|x| { let y: int = x; %s%s }" % (call(f), body)
MATCH = "match next(%s) { Some(x) => %s, None => %s }"

class Program:
    def __init__(self, l):
        self.funs, self.out, self.seed = [], [], l["seed"]
        self.body(l["p"])
    def fun(self, f, body, ret):
        """a function argument: a closure or a named function"""
        if (self.seed + len(self.out) + len(self.funs)) % 3: return lam(f, body)
        self.funs.append("fn g%d(y: int) -> %s { %s%s }" % (len(self.funs), ret, call(f), body))
        return "g%d" % (len(self.funs) - 1)
    def mapping(self, o, f):
        if o == "map": return self.fun(f, fn(f), "int")
        if o == "filter": return self.fun(f, pred(f), "bool")
        return self.fun(f, "if %s { Some(y * 2 + 1) } else { None }" % pred(f), "Option<int>")
    def body(self, p):
        kind, e = src(p["src"])
        n = 0
        self.out.append("let s0 = %s;" % e); cur = "s0"
        for g in p["stages"]:
            o = g["o"]
            if o in ("map", "filter", "fmap"):
                e = "%s(%s, %s)" % ({"fmap": "filter_map"}.get(o, o), cur if kind != "rng" else "iter(%s)" % cur, self.mapping(o, g["f"]))
                kind = "arr" if kind == "arr" else "it"
            elif o == "iter": e, kind = "iter(%s)" % cur, "it"
            elif o == "collect": e, kind = "(collect(%s): [int])" % cur, "arr"
            elif o == "enum": e, kind = "map(enumerate(%s), |q| { let r: (int, int) = q; r.1 * 10 + r.0 })" % cur, "it"
            elif o in ("take", "skip"): e, kind = "%s(%s, %s)" % (o, cur, num(g["n"])), "it"
            else:
                k2, e2 = src(g["src"])
                if g["g"]: e2 = "map(%s, %s)" % (e2 if k2 == "arr" else "iter(%s)" % e2, self.mapping("map", g["g"][0]))
                e = "zip(%s, %s)" % (cur, e2) if o == "zip" else "chain(%s, %s)" % (cur, e2)
                if o == "zip": e = "map(%s, |q| { let r: (int, int) = q; r.0 * 7 + r.1 })" % e
                kind = "it"
            n += 1
            self.out.append("let s%d = %s;" % (n, e)); cur = "s%d" % n
        self.consume(p, cur, kind)
    def consume(self, p, c, kind):
        o, f, w = p["end"], p["f"], self.out.append
        if o == "fold": w("host::log(fold(%s, 0, |acc, x| { let y: int = x; host::log(y); acc + y }));" % c)
        elif o == "for": w("let mut t = 0; for x in %s { host::log(x); t += x }; host::log(t);" % c)
        elif o == "forbreak": w("let mut i = 0; let mut stop = false; for x in %s { host::log(x); if i >= %d { stop = true; break }; i += 1 }; if stop { } else { host::log(-5); };" % (c, p["n"]))
        elif o == "collect": w("let q: [int] = collect(%s); for x in q { host::log(x) };" % c)
        elif o in ("count", "sum"): w("host::log(%s(%s));" % (o, c))
        elif o in ("min", "max"): w("host::log(%s(%s));" % ({"min": "minimum", "max": "maximum"}[o], c))
        elif o in ("any", "all"): w("host::log(if %s(%s, %s) { 1 } else { 0 });" % (o, c, self.fun(f, pred(f), "bool")))
        elif o in ("find", "position"): w("match %s(%s, %s) { Some(x) => host::log(x), None => host::log(-99) };" % (o, c, self.fun(f, pred(f), "bool")))
        elif o == "contains": w("host::log(if contains(%s, %s) { 1 } else { 0 });" % (c, num(p["x"])))
        elif o == "next2": w("let mut it = iter(%s);" % c); w(" ".join((MATCH % ("it", "host::log(x)", "host::log(-99)")) + ";" for _ in range(p["n"] + 1)))
        elif o == "copy":
            w("let mut it = iter(%s); let keep = it; let mut i = 0; loop { %s };" % (c, MATCH % ("it", "{ if i >= %d { break }; host::log(x); i += 1 }" % p["n"], "break")))
            w("host::log(77); let mut it2 = keep; loop { %s };" % (MATCH % ("it2", "host::log(x)", "break")))
        elif o == "twice": w("host::log(sum(%s)); host::log(sum(%s));" % (c, c))
        elif o == "tryfold": w("match try_fold(%s, 0, |acc, x| { let y: int = x; %sif %s { Continue(acc + y) } else { Break } }) { Continue(v) => host::log(v), Break => host::log(-98) };" % (c, call(f), pred(f)))
        else:
            q = c
            if kind != "arr": w("let q: [int] = collect(%s);" % c); q = "q"
            if o == "sortby": w("let mut r = %s; sort_by(r, |a, b| { let d: int = mod(a, 3); cmp(d, mod(b, 3)) }); for x in r { host::log(x) };" % q)
            elif o == "sortdesc": w("for x in sorted_by(%s, |a, b| { let d: int = b; cmp(d, a) }) { host::log(x) };" % q)
            elif o == "split": w("let r: [[int]] = split(%s, %s); for u in r { host::log(100 + len(u)); for x in u { host::log(x) } };" % (q, num(p["x"])))
            elif o == "splitseq": w("let r: [[int]] = split(%s, [%s, %s]); for u in r { host::log(100 + len(u)); for x in u { host::log(x) } };" % (q, num(p["x"]), num(p["x"])))
            elif o == "join": w("for x in join([%s, [1], %s], [%s, 7]) { host::log(x) };" % (q, q, num(p["x"])))
            else: w("host::log(len(%s));" % q)
    def text(self): return "\n".join(self.funs + ["fn main() {\n  %s\n}" % "\n  ".join(self.out)])

def run(check, lo, hi):
    step, st = 6000, {"states": 0, "trans": 0, "runs": 0, "fails": 0, "ends": {}}
    for x in range(lo, hi + 1, step): chunk(check, x, min(hi, x + step - 1), st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["runs"], "failing_pipelines": st["fails"], "consumers": st["ends"],
        "rule": "seeded pipelines (source, adaptors, consumer) of spec/Seqs.tla; the calls of function arguments, shown elements and failure compared in the hir, mir and opt modes"})

def chunk(check, lo, hi, st):
    r = vlib.tlc("Seqs", {"SeedLo": lo, "SeedHi": hi}, invariants=["Agree", "Ended"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": Program(l).text(), "runs": [{"entry": "main", "mode": m, "args": []} for m in modes(l)]} for l in ls]
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        want = ["%s%d" % (a, b) for a, b in l["lg"]]
        def bad(msg): check.violation("pipeline %d: %s in\n%s" % (l["seed"], msg, job["src"]), {"src": job["src"], "seed": l["seed"], "want": [want, l["res"]], "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("rejected or crashed: " + str(got)[:400]); continue
        panics = want and want[-1][0] == "P"
        for m, g in zip(modes(l), got["runs"]):
            if g["log"] != (want[:-1] if panics else want): bad("mode %s logs %s, specified %s" % (m, g["log"], want)); break
            if panics or l["res"] == "fail":
                if ("empty sequence" if panics else "Division by zero") not in str(g.get("fail", "")): bad("mode %s: %s, specified a failure" % (m, str(g)[:200])); break
            elif "ok" not in g: bad("mode %s: %s" % (m, str(g)[:200])); break
            st["runs"] += 1
        st["fails"] += l["res"] == "fail"; st["ends"][l["p"]["end"]] = st["ends"].get(l["p"]["end"], 0) + 1
        check.sample({"src": job["src"], "log": want}, 2)
