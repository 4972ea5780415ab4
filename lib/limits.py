"""C08: runs under resource limits against spec/LimitMC.tla, and unbounded programs (spec/Endless.tla)."""
import json
import vlib, render, corecheck
from vlib import log

FUELS = (0, 1, 2, 3, 5, 8)
DEPTHS = (0, 1, 2, 4, 8)
CELLS = (0, 2, 4, 7, 11, 16, 30)
NOLIM = 9999

class Raw:
    def __init__(self, s): self.s = s
    def __str__(self): return self.s

def spec_runs(profile, lo, hi, nargs, max_steps=1200, chunk=1500):
    progs, runs, gen, dist = {}, {}, 0, 0
    for a in range(lo, hi + 1, chunk):
        r = vlib.tlc("LimitMC", {"Profile": profile, "SeedLo": a, "SeedHi": min(hi, a + chunk - 1), "MaxSteps": max_steps,
                                 "NArgs": nargs, "Limits": Raw("{9999, %s}" % ", ".join(map(str, FUELS)))},
                     invariants=["Paid", "NoDoubleDrop"], spec="LSpec", view="LView", timeout=800)
        gen += r.generated; dist += r.distinct
        for l in r.lines:
            if "prog" in l: progs[l["prog"]] = l
            else: runs.setdefault((l["run"], l["arg"]), {})[l["lim"]] = l
    return progs, runs, gen, dist

def is_prefix(a, b): return len(a) <= len(b) and b[:len(a)] == a

def outcome(g): return {k: v for k, v in g.items() if k not in ("log", "re", "relog")}

def judge(spec, full, got, mode, kind, lim):
    """The limited run `got` against the unlimited run `full` of the same mode and the specified runs `spec`."""
    if "sandbox" in got:
        if got["sandbox"] != kind: return "violation of kind %s under a %s limit" % (got["sandbox"], kind)
        if not is_prefix(got["log"], full["log"]): return "log %s is not the beginning of %s" % (got["log"], full["log"])
        if "interrupted" in got and not ("fail" in full and full["fail"] == got["interrupted"]):
            return "interrupted failure %s, the run without limit gives %s" % (got["interrupted"], corecheck.short(full))
        if outcome(got.get("re", {})) != {k: v for k, v in outcome(got).items()}: return "re-entry of the poisoned executor gives %s" % got.get("re")
        if got.get("relog"): return "guest code ran on re-entry: %s" % got["relog"]
    else:
        if outcome(got) != outcome(full): return "outcome %s, without limit %s" % (corecheck.short(got), corecheck.short(full))
        if got["log"] != full["log"]: return "log %s, without limit %s" % (got["log"], full["log"])
    if kind == "fuel":
        s = spec[lim]
        if s["o"] == "sandbox" and "sandbox" not in got and mode != "opt":
            return "completed with %d iterations paid, the run makes %d" % (lim, spec[NOLIM]["fuel"])
        if s["o"] != "sandbox" and "sandbox" in got and not s["lib"]:
            return "violated with %d iterations paid, the run makes %d" % (lim, spec[NOLIM]["fuel"])
        if s["o"] == "sandbox" and mode != "opt" and not any(e[0] == "!" for e in s["log"]):
            want, have = corecheck.norm(s["log"]), corecheck.norm(got["log"])
            if have != want and not (s["lib"] and is_prefix(have, want)): return "log %s at the violation, specified %s" % (have, want)
    if kind == "depth" and mode != "opt" and spec[NOLIM]["mx"] > lim + 1 and "sandbox" not in got:
        return "calls nest %d deep under a limit of %d" % (spec[NOLIM]["mx"], lim)
    return None

def run_profile(c, profile, lo, hi, nargs=2, modes=("hir", "mir", "opt")):
    progs, runs, gen, dist = spec_runs(profile, lo, hi, nargs)
    by = {}
    for (i, a), rs in runs.items():
        if rs[NOLIM]["o"] != "discard": by.setdefault(i, []).append(rs)
    jobs, ids = [], sorted(by)
    for i in ids:
        rl = []
        for rs in by[i]:
            for m in modes:
                base = dict(entry="main", mode=m, args=rs[NOLIM]["args"], reenter=True)
                rl.append(base)
                rl += [dict(base, fuel=f) for f in FUELS] + [dict(base, depth=d) for d in DEPTHS] + [dict(base, cells=k) for k in CELLS]
                rl.append(base)      # a fresh executor behaves as if nothing happened
        jobs.append({"id": i, "src": render.program(progs[i], 1), "runs": rl})
    res = vlib.run_jobs(jobs, timeout=15)
    st = {"programs": 0, "runs": 0, "violated": 0, "undecided": 0, "states": gen, "distinct": dist, "validated": 0}
    for i, job, r in zip(ids, jobs, res):
        where = {"profile": profile, "seed": i, "src": job["src"]}
        if "timeout" in r: st["undecided"] += 1; continue
        if "panic" in r or "dead" in r:
            c.violation("limited runs of %s/%d: %s" % (profile, i, json.dumps(r)[:400]), dict(where, result=r)); continue
        if "err" in r: continue
        st["programs"] += 1
        k = 0
        for rs in by[i]:
            bad = None
            for m in modes:
                full = r["runs"][k]; k += 1
                plan = [("fuel", f) for f in FUELS] + [("depth", d) for d in DEPTHS] + [("cells", n) for n in CELLS]
                done = {}
                d = corecheck.compare(rs[NOLIM], full, m)
                if d and d != "F1": bad = bad or (m, "without limit: " + d, full)
                for kind, lim in plan:
                    got = r["runs"][k]; k += 1
                    st["runs"] += 1
                    if "sandbox" in got: st["violated"] += 1
                    if bad: continue
                    d = judge(rs, full, got, m, kind, lim)
                    if d is None and "sandbox" in got and done.get(kind): d = "completed under a smaller limit, violated under %d" % lim
                    done[kind] = "sandbox" not in got
                    if d: bad = (m, "%s limit %d: %s" % (kind, lim, d), got)
                again = r["runs"][k]; k += 1
                if not bad and (outcome(again) != outcome(full) or again["log"] != full["log"]):
                    bad = (m, "fresh executor after violations: %s, before %s" % (corecheck.short(again), corecheck.short(full)), again)
            if bad:
                c.violation("program %s/%d args %s mode %s %s" % (profile, i, rs[NOLIM]["args"], bad[0], bad[1]),
                            dict(where, args=rs[NOLIM]["args"], observed=bad[2]))
            else:
                st["validated"] += 1
                if rs[NOLIM]["fuel"] > 2: c.sample(dict(profile=profile, seed=i, args=rs[NOLIM]["args"], iterations=rs[NOLIM]["fuel"], calls=rs[NOLIM]["mx"]))
    return st

# ---------------------------------------------------------------- programs without an end
def endless_source(p):
    nodes, k = p["nodes"], len(p["nodes"])
    pure = p["pure"]
    eff = "" if pure else " ! (read, write, fallible)"
    out = [render.PRE_D] if any(d["own"] for d in nodes) else []
    out.append("fn ap(g, n: int) -> int { g(n) }")
    out.append("struct F { g: (int) -> int%s }" % eff)
    for i, d in enumerate(nodes):
        j = (i + 1) if i + 1 < k else p["back"] - 1
        last = i + 1 == k and p["spin"]
        call = endless_call(out, d["call"], i, "f%d" % j, eff)
        body = []
        if not pure: body.append("host::log(%d);" % d["l"])
        if d["own"]: body.append("let own = mk(%d);" % d["l"])
        if last: body.append(spin(p["spin"], pure))
        else: body.append(spot(d["spot"], call, eff))
        tail = body.pop()
        body.append("let res: int = %s;" % tail if d["own"] else tail)
        if d["own"]: body.append("res + own.l * 0")
        out.append("fn f%d(n: int) -> int { %s }" % (i, " ".join(body)))
    out.append("fn main(n: int) -> int { f0(n) }")
    return "\n".join(out)

def endless_call(out, kind, i, f, eff):
    if kind == "direct": return "%s(n)" % f
    if kind == "closure": return "{ let g%d = |x| %s(x); g%d(n) }" % (i, f, i)
    if kind == "nested": return "{ let g%d = |x| { let h = |y| %s(y); h(x) }; g%d(n) }" % (i, f, i)
    if kind == "value": return "{ let g%d = %s; g%d(n) }" % (i, f, i)
    if kind == "hof": return "ap(%s, n)" % f
    if kind == "map": return "len(map([n], |x| %s(x)))" % f
    if kind == "field": return "{ let g%d = F { g: %s }; (g%d.g)(n) }" % (i, f, i)
    if kind == "dyn": return "{ let g%d = [%s]; g%d[0](n) }" % (i, f, i)
    if kind in ("method", "generic"):
        out.append("struct S%d { a: int } trait T%d<Self> { fn t%d(x: Self) -> int%s; }" % (i, i, i, eff))
        out.append("impl T%d for S%d { fn t%d(x: S%d) -> int { %s(x.a) } }" % (i, i, i, i, f))
        if kind == "method": return "t%d(S%d { a: n })" % (i, i)
        out.append("fn u%d<Y>(x: Y) -> int where Y: T%d { t%d(x) }" % (i, i, i))
        return "u%d(S%d { a: n })" % (i, i)
    # semantic operations
    b = {"eq": "a.k == b.k", "show": '"v"', "hash": "()", "clone": "H%d { k: v.k }" % i, "drop": "()"}
    if kind == "eq": b["eq"] = "%s(a.k) == 0" % f
    if kind == "show": b["show"] = '{ let r = %s(v.k); "v" }' % f
    if kind == "clone": b["clone"] = "H%d { k: %s(v.k) }" % (i, f)
    if kind == "drop": b["drop"] = "{ let r = %s(v.k); () }" % f
    out.append(("struct H%d { k: int } impl Value for H%d { fn eq(a: H%d, b: H%d) -> bool { %s } fn to_string(v: H%d) -> string { %s } "
                "fn hash(v: H%d, state: &mut hasher) { () } fn clone(v: H%d) -> H%d { %s } fn drop(v: &mut H%d) { %s } }")
               % (i, i, i, i, b["eq"], i, b["show"], i, i, i, b["clone"], i, b["drop"]))
    h = "H%d { k: n }" % i
    if kind == "eq": return "{ let h%d = %s; let q%d = %s; if h%d == q%d { 1 } else { 2 } }" % (i, h, i, h, i, i)
    if kind == "show": return "{ let h%d = %s; string_len(to_string(h%d)) }" % (i, h, i)
    if kind == "clone": return "{ let h%d = %s; let mut q%d = h%d; q%d.k = 3; h%d.k + q%d.k }" % (i, h, i, i, i, i, i)
    return "{ { let h%d = %s; () }; n }" % (i, h)

def spot(kind, e, eff):
    return {"tail": "%s", "operand": "1 + %s", "then": "if n >= 0 { let w = [n]; %s + len(w) } else { 0 }",
            "else": "if n < 0 { 0 } else { %s }", "match": "match n { 0 => 0, _ => %s }", "block": "{ let w = [n]; { %s } }",
            "owned": "{ let w = [[n]]; let z = %s; z + len(w) }", "array": "len([n, %s])",
            "for": "{ let mut t = 0; for i in 0..2 { let w = [i]; t += %s }; t }", "cond": "if %s > 0 { 1 } else { 0 }",
            "arg": "abs(%s)", "loop": "{ let w = [n]; let mut t = 0; loop { t += %s; if t < 0 { break } }; t }"}[kind] % e

def spin(k, pure):
    l = "" if pure else "host::log(0); "
    return ["loop { %sif n < 0 { break 1 } }" % l,
            "{ let w = [n]; let mut t = 0; loop { let v = [t]; %st += 1; if t < 0 { break t } } }" % l,
            "{ let mut t = 0; for i in 0..100000000000 { %st += i }; t }" % l,
            "{ let mut t = 0; 'o: loop { let v = [t]; loop { %st += 1; if t > 0 { continue 'o }; } } ; t }" % l][k - 1]

def endless(c, lo, hi, laps=140):
    r = vlib.tlc("Endless", {"SeedLo": lo, "SeedHi": hi, "Laps": laps}, invariants=["NeverEnds"], properties=["Keeps"], view="View")
    ps = {l["prog"]: l["p"] for l in r.lines if "prog" in l}
    rs = {l["run"]: l for l in r.lines if "run" in l}
    lims = [dict(fuel=100, depth=24), dict(fuel=0, depth=24), dict(fuel=7, depth=24), dict(fuel=100, depth=0), dict(fuel=100, depth=5)]
    ids = sorted(ps)
    jobs = [{"id": i, "src": endless_source(ps[i]), "exp": True,
             "runs": [dict(entry="main", mode=m, args=[1], reenter=True, **l) for m in ("hir", "mir", "opt") for l in lims]} for i in ids]
    st = {"programs": 0, "runs": 0, "rejected": 0, "states": r.generated, "distinct": r.distinct}
    for i, job, res in zip(ids, jobs, vlib.run_jobs(jobs, timeout=30)):
        w = {"endless": i, "src": job["src"]}
        if "runs" not in res:
            if "err" in res:
                st["rejected"] += 1
                st.setdefault("errs", []).append((i, res["err"][:300], job["src"]))
            else: c.violation("endless program %d does not end in a sandbox violation: %s" % (i, json.dumps(res)[:300]), dict(w, result=res))
            continue
        st["programs"] += 1
        k = 0
        want, said = rs[i]["log"], False
        # the ring of loops alone: nothing else spends fuel
        exact = ps[i]["spin"] in (1, 2) and not ps[i]["pure"] and not any(n["call"] == "map" or n["spot"] in ("for", "loop") for n in ps[i]["nodes"])
        for m in ("hir", "mir", "opt"):
            for l in lims:
                got = res["runs"][k]; k += 1
                st["runs"] += 1
                log_ = [e.split(".")[0] for e in got["log"]]
                d = None
                kinds = (rs[i]["kind"],) + (("fuel", "depth") if any(n["spot"] in ("for", "loop") for n in ps[i]["nodes"]) or ps[i]["spin"] else ())
                if any(n["call"] in ("map",) for n in ps[i]["nodes"]): kinds += ("fuel",)
                if l["depth"] == 0 or l["depth"] == 5: kinds += ("depth",)
                if got.get("sandbox") not in kinds: d = "ends with %s" % corecheck.short(got)
                elif not is_prefix(log_, want) and not is_prefix(want, log_): d = "log %s is no beginning of %s" % (log_[:40], want[:40])
                elif outcome(got["re"]) != outcome(got) or got["relog"]: d = "re-entry gives %s, log %s" % (got["re"], got["relog"][:5])
                elif exact and m != "opt" and got["sandbox"] == "fuel" and log_.count("L0") != l["fuel"]:
                    d = "%d iterations under fuel %d" % (log_.count("L0"), l["fuel"])
                if d and not said:
                    said = True
                    c.violation("endless program %d mode %s limits %s: %s" % (i, m, l, d), dict(w, mode=m, limits=l, observed=got))
        if not said: c.sample(dict(endless=i, kind=rs[i]["kind"], nodes=ps[i]["nodes"]), 6)
    return st
