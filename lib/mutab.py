"""Replay of spec/Mut.tla: mutability and overlap (C11)."""
import vlib
LIT = {"I": "7", "T": "(7, 8)", "A": "[7, 8]", "B": "[(7, 8), (9, 10)]"}
TY = {"I": "int", "T": "(int, int)", "A": "[int]", "B": "[(int, int)]"}

class Program:
    def __init__(self, l): self.p, self.seed = l["p"], l["seed"]
    def var(self, v): return "v%d" % v["id"]
    def place(self, v, path):
        r = self.var(v)
        for k, i in path: r += {"p": ".%d" % i, "x": "[%d]" % i, "d": "[host::tap(0)]", "n": "[-1]"}[k]
        return r
    def at(self, e, ty): return LIT[ty] if e["k"] == "lit" else self.place(e["v"], e["p"])
    def block(self, b): return "; ".join(self.stmt(x) for x in b) + "; ()"
    def ty_of(self, v, path):
        t = v["ty"]
        for k, i in path: t = {"T": "I", "A": "I", "B": "T"}[t]
        return t
    def stmt(self, e):
        k, c = e["k"], e["c"]
        if k == "set": return "%s = %s" % (self.place(e["v"], e["p"]), LIT[self.ty_of(e["v"], e["p"])])
        if k == "op": return "%s += 3" % self.place(e["v"], e["p"])
        if k == "app": return "array_append(%s, 5)" % self.place(e["v"], e["p"])
        if k == "let": return "let %s%s = %s" % ("mut " if e["v"]["mk"] == "mut" else "", self.var(e["v"]), self.place(c[0]["v"], c[0]["p"]))
        if k == "cap": return "{ let g = || { %s = 3 }; g() }" % self.place(e["v"], e["p"])
        if k == "for": return "for %s in 0..3 { %s }" % (self.var(e["v"]), self.block(c))
        if k == "if": return "if host::tap(0) == 0 { %s } else { %s }" % (self.block(c[0]["c"]), self.block(c[1]["c"]))
        if k == "match": return "match Some(%s) { Some(%s) => { %s }, None => () }" % (self.place(c[0]["v"], c[0]["p"]), self.var(e["v"]), self.block(c[1]["c"]))
        if k == "lam": return "{ let h = |%s| { %s }; h(%s) }" % (self.var(e["v"]), self.block(c[1]["c"]), self.place(c[0]["v"], c[0]["p"]))
        if k == "call":
            f = self.p["funs"][e["p"][0] - 1]
            return "f%d(%s)" % (e["p"][0], ", ".join(self.at(a, q["ty"]) for a, q in zip(c, f)))
        raise ValueError(k)
    def text(self):
        out = []
        for i, (ps, b) in enumerate(zip(self.p["funs"], self.p["bodies"])):
            h = ", ".join(self.var(v) + {"inf": "" if self.seed % 4 == 0 else ": &? " + TY[v["ty"]], "mut": ": &mut " + TY[v["ty"]], "imm": ": " + TY[v["ty"]]}[v["mk"]] for v in ps)
            out.append((-i if self.seed % 2 else i, "fn f%d(%s) { %s }" % (i + 1, h, self.block(b))))
        return "\n".join(x for _, x in sorted(out)) + "\n"

def run(check, lo, hi):
    r = vlib.tlc("Mut", {"SeedLo": lo, "SeedHi": hi}, invariants=["Confluent", "Minimal"], timeout=700)
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": Program(l).text(), "runs": []} for l in ls]
    n, verdicts = 0, {}
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        v = l["v"]
        verdicts[v] = verdicts.get(v, 0) + 1
        def bad(msg): check.violation("module %d: %s, specified %s in\n%s" % (l["seed"], msg, v, job["src"]), {"seed": l["seed"], "src": job["src"], "want": v, "mutable": l["m"], "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        # type inference of recursive functions without types fails internally (C25); the verdict of those is not judged
        if l["seed"] % 4 == 0 and ("Internal {" in str(got.get("err")) or "dictionary for trait" in str(got.get("panic"))): check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "panic" in got or "dead" in got: bad("panics: " + str(got)[:300]); continue
        if v == "open": continue
        if got.get("ok") and v != "ok": bad("accepted"); continue
        if not got.get("ok") and v == "ok": bad("rejected: " + str(got.get("err"))[:300]); continue
        # a rejection is for the right reason
        e = str(got.get("err"))
        if v != "ok" and not any(x in e for x in ("MutabilityMustBe", "MutablePathsOverlap")): bad("rejected otherwise: " + e[:300]); continue
        n += 1
        check.sample({"src": job["src"], "verdict": v, "inferred mutable": l["m"]}, 2)
    check.coverage.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": n, "verdicts": verdicts,
        "rule": "seeded modules of functions with annotated and inferred parameters; the least set of mutable parameters, and the verdict on immutable targets and overlapping mutable arguments"})
