"""Replay of spec/Effects.tla: inferred effects in signatures, admitted uses, and what runs perform (C12)."""
import re
import vlib
from vlib import log
from infer import top_commas

PRIM = {"log": "host::log(%s);", "src": "host::src(%s);", "div": "idiv(1, %s);", "idx": "[1, 2][%s];", "set": "{ let mut a = [1]; a[%s] = 2 };",
        "boom": "host::boom(%s);", "pure": "%s + 1;", "panic": 'panic("p");'}
NEED = ["", "read", "write", "fallible"]
ORDER = ["read", "write", "fallible"]

def effs(p): return "(%s)" % ", ".join(e for e in ORDER if e in p)

class R:
    def __init__(self): self.n = 0
    def name(self, p):
        self.n += 1
        return p + str(self.n)
    def block(self, b, v): return " ".join(self.stmt(s, v) for s in b)
    def call(self, c, v):
        k = c["k"]
        if k == "par": return "gh"[c["j"] - 1]
        if k == "fn": return "f%d" % c["j"]
        if k == "lam":
            y, x = self.name("y"), self.name("x")
            return "|%s| { let %s: int = %s; %s %s }" % (y, x, y, self.block(c["b"][0], x), x)
        if k == "join": return "if %s > 2 { %s } else { %s }" % (v, self.call(c["c"][0], v), self.call(c["c"][1], v))
        return "(%s, %s).0" % (self.call(c["c"][0], v), v)
    def stmt(self, s, v):
        k = s["k"]
        if k == "prim": return PRIM[s["o"]] % v if "%s" in PRIM[s["o"]] else PRIM[s["o"]]
        if k == "call": return "f%d(%s);" % (s["j"], ", ".join([v + " - 1"] + [self.call(c, v) for c in s["c"]]))
        if k == "app":
            if s["o"] == "direct": return "(%s)(%s);" % (self.call(s["c"][0], v), v)
            z = self.name("k"); return "let %s = %s; %s(%s);" % (z, self.call(s["c"][0], v), z, v)
        if k == "hold": return "let %s = %s;" % (self.name("k"), self.call(s["c"][0], v))
        if k == "fold":
            z = self.name("k")
            return "let %s = %s; fold([%s], 0, |acc, it| { %s(it); acc });" % (z, self.call(s["c"][0], v), v, z)
        if k == "need": return "need%d(%s, %s);" % (s["j"], self.call(s["c"][0], v), v)
        if k == "fix": return "fx(A%d { a: %s });" % (s["j"], v)
        if k == "assoc": return "asm(A%d { a: %s });" % (s["j"], v)
        if k == "gen": return "gn(A%d { a: %s });" % (s["j"], v)
        b = [self.block(x, v) for x in s["b"]]
        if k == "if": return "if %s > 1 { %s } else { %s };" % (v, b[0], b[1])
        if k == "match": return "match %s { 1 => { %s }, _ => { %s } };" % (v, b[0], b[1])
        if k == "when": return "if %s > 0 { %s };" % (v, b[0])
        if k == "for": return "for %s in 0..2 { %s };" % (self.name("i"), b[0])
        if k == "loop":
            z = self.name("m")
            return "let mut %s = 0; loop { %s %s = %s + 1; if %s > 1 { break }; %s };" % (z, b[0], z, z, z, b[1])
        return "return %s;" % v

def source(l, uses=None):
    p = l["prog"]
    r = R()
    out = ["fn need%d<! E>(h: (int) -> int ! %s, n: int) -> int { h(n) }" % (j, "E" if j == 0 else "(%s, E)" % NEED[j]) for j in range(4)]
    out += ["struct A0 { a: int }", "struct A1 { a: int }", "trait Fx<Self> { fn fx(x: Self) -> int ! %s; }" % effs(p["fixed"]),
            "trait As<Self |-> ! Ef> { fn asm(x: Self) -> int ! Ef; }"]
    for j in range(2):
        out.append("impl Fx for A%d { fn fx(x%s) { %s x.a } }" % (j, ": A%d" % j if j else "", r.block(p["fix"][j], "x.a")))
        out.append("impl As for <Self = A%d |-> ! Ef = %s> { fn asm(x%s) { %s x.a } }" % (j, effs(p["bind"][j]), ": A%d" % j if j else "", r.block(p["assoc"][j], "x.a")))
    out.append("fn gn(x) -> int { asm(x) }")
    for j, f in enumerate(p["f"]):
        out.append("fn f%d(%s) -> int { %s n }" % (j + 1, ", ".join(["n: int"] + ["g", "h"][:f["np"]]), r.block(f["b"], "n")))
    return "\n".join(out)

VARS = re.compile(r"e[₀-₉]+")
def split_sig(text):
    """(parameter texts, result effects)"""
    depth = 0
    for i, ch in enumerate(text):
        if ch in "([{": depth += 1
        if ch in ")]}": depth -= 1
        if depth == 0: break
    params = top_commas(text[1:i])
    res = text[i + 1:].split(" where ")[0].split("->", 1)[1]
    return params, set(re.findall(r"read|write|fallible|e[₀-₉]+", res.split("!", 1)[1])) if "!" in res else set()

def differs(l, j, text):
    params, got = split_sig(text)
    want = l["sig"][j]
    gv = {x for x in got if x.startswith("e")}
    prims = {x for x in want if len(x) > 1}
    if got - gv != prims: return "effects of f%d are %s, specified %s" % (j + 1, sorted(got - gv), sorted(want))
    mine = [set(VARS.findall(p.rsplit("->", 1)[1])) if "->" in p else set() for p in params[1:]]
    open_ = set()
    for k, name in ((0, "g"), (1, "h")):
        if name in want:
            if not mine[k]: return "effects of f%d do not include those of its parameter %s: %s" % (j + 1, name, text)
            open_ |= mine[k]
    if gv != open_: return "effects of f%d follow the parameters %s, specified %s: %s" % (j + 1, sorted(gv), sorted(want), text)
    return None

def performed(run):
    e = set()
    for x in run["log"]:
        if x[0] in "LTB": e.add("write")
    if "fail" in run: e.add("fallible")
    return e

def run(check, lo, hi):
    st = {"states": 0, "trans": 0, "sigs": 0, "uses": 0, "refused": 0, "impls": 0, "runs": 0, "odd": 0, "poly": 0}
    step = 2000
    for a in range(lo, hi + 1, step): chunk(check, a, min(hi, a + step - 1), st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["sigs"] + st["uses"] + st["impls"],
        "signatures": st["sigs"], "effect_polymorphic": st["poly"], "uses_admitted": st["uses"] - st["refused"], "uses_refused": st["refused"],
        "method_mismatches_refused": st["impls"], "runs_within_signature": st["runs"], "left_open": st["odd"],
        "effects_rule": "seeded modules; least effects from spec/Effects.tla (TLC invariants Unique, Sound) against signatures, admitted uses and performed effects"})

def chunk(check, lo, hi, st):
    r = vlib.tlc("Effects", {"SeedLo": lo, "SeedHi": hi, "MaxDepth": 5, "RunEvery": 12}, invariants=["Unique", "Sound"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    jobs, want = [], []
    seen = set()
    for l in sorted(r.lines, key=lambda l: l["seed"]):
        if l["seed"] in seen: continue
        seen.add(l["seed"])
        src = source(l)
        fit = all(l["fixok"] + l["assocok"])
        if not fit:
            jobs.append({"id": 0, "src": src, "sigs": [], "runs": []}); want.append(("impl", l, None)); continue
        names = ["f%d" % (j + 1) for j in range(len(l["prog"]["f"]))]
        runs = [{"entry": n, "mode": m, "args": [a], "fuel": 20000} for j, n in enumerate(names) if l["prog"]["f"][j]["np"] == 0 for a in (0, 1, 3) for m in ("hir", "opt")]
        jobs.append({"id": 0, "src": src, "sigs": names, "runs": runs}); want.append(("sig", l, runs))
        for u in l["uses"]:
            f = l["prog"]["f"][u["j"] - 1]
            arg = "f%d" % u["j"] if f["np"] == 0 else "|x| f%d(%s)" % (u["j"], ", ".join(["x"] + ["|z| { let q: int = z; q }"] * f["np"]))
            text = "\nfn room(h: (int) -> int ! %s, n: int) -> int { h(n) }\nfn use(n: int) -> int { room(%s, n) }" % (effs(u["p"]), arg)
            jobs.append({"id": 0, "src": src + text.replace("use(", "using("), "sigs": ["using"], "runs": []}); want.append(("use", l, u))
    res = vlib.run_jobs(jobs, timeout=20)
    odd = set()
    for job, (kind, l, x), got in zip(jobs, want, res):
        def bad(msg): check.violation("effects %d (%s): %s in\n%s" % (l["seed"], kind, msg, job["src"]), {"src": job["src"], "seed": l["seed"], "sig": l["sig"], "result": str(got)[:1500]})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "panic" in got or "dead" in got: bad(str(got)[:300]); continue
        rejected = "err" in got
        if l["odd"]: st["odd"] += 1; continue
        if kind == "impl":
            if rejected and "TraitMethodEffectMismatch" in got["err"]: st["impls"] += 1
            elif rejected: bad("rejected for another reason: " + got["err"][:400])
            else: bad("accepted, although a method has more effects than declared")
        elif kind == "sig":
            if rejected: bad("rejected: " + got["err"][:500]); continue
            for j in range(len(l["sig"])):
                d = differs(l, j, got["sigs"]["f%d" % (j + 1)])
                if d: bad(d); break
                st["sigs"] += 1; st["poly"] += any(len(e) == 1 for e in l["sig"][j])
            for rn, g in zip(x, got["runs"]):
                e = performed(g)
                if not e <= set(l["sig"][int(rn["entry"][1:]) - 1]): bad("%s(%s) in mode %s performs %s, its effects are %s" % (rn["entry"], rn["args"], rn["mode"], sorted(e), l["sig"][int(rn["entry"][1:]) - 1])); break
                st["runs"] += 1
            check.sample({"src": job["src"], "sigs": got["sigs"]}, 2)
        else:
            if rejected and x["ok"]: bad("use of f%d where %s is admitted is rejected: %s" % (x["j"], effs(x["p"]), got["err"][:300]))
            elif not rejected and not x["ok"]: bad("use of f%d where only %s is admitted is accepted" % (x["j"], effs(x["p"])))
            elif rejected and "InvalidEffectDependency" not in got["err"]: bad("rejected for another reason: " + got["err"][:300])
            else: st["uses"] += 1; st["refused"] += rejected
