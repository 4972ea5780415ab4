"""C19, C20: session histories generated by spec/Session.tla, executed, and their recorded states checked against it."""
import json
import vlib

N, STEPS = 5, 22

def names(n=N): return ["m%d" % i for i in range(1, n + 1)]

def names_of(u, imported):
    """How a used item is written: by its path, or by its name when it is imported."""
    m = "m%d" % u["m"]
    at = (lambda x: x) if imported and u["w"] != "f" else (lambda x: m + "::" + x)
    if u["w"] == "f": return [], m + "::f()"
    k = u["m"]
    if u["w"] == "g": return ["g%d" % k], at("g%d" % k) + "()"
    if u["w"] == "q": return ["q%d" % k], "%s(%s)" % (at("q%d" % k), ("1", "\"a\"", "[2]")[k % 3])
    return ["mk%d" % k, "un%d" % k], "%s(%s())" % (at("un%d" % k), at("mk%d" % k))

def source(i, s):
    """The source text of module i."""
    if s["bad"] == 1: return "pub fn f( -> int { %d }" % s["k"]
    form, k, head, terms = s["form"], s["k"], [], ["%d" % s["k"]]
    for u in s["uses"]:
        imported = form in (1, 3)
        ns, e = names_of(u, imported)
        if imported: head += ["use m%d::%s;" % (u["m"], x) for x in ns]
        terms.append(e)
    total = " + ".join(terms)
    if s["bad"] == 2: total += " + len(\"x\") + true"
    if s["bad"] == 3: total += " + nosuch(%d)" % k
    if form == 0: f = "pub fn f() -> int { %s }" % total
    elif form == 1: f = "fn helper(x: int) -> int { x + len(\"ab\") - 2 }\npub fn f() -> int { helper(%s) }" % total
    elif form == 2: f = "pub fn f() -> int { let h = |x| x + (%s); h(abs(0)) }" % total
    else: f = "fn pick(a, b) { a }\npub fn f() -> int { pick(%s, to_string(1)) }" % total
    if s["ty"] == 1: f = f.replace("pub fn f() -> int {", "pub fn f0() -> int {") + "\npub fn f() -> string { let x = f0(); f\"{x}\" }"
    out = head + [f]
    if s["g"]: out.append("pub fn g%d() -> int { len([1, 2]) * %d + 1 }" % (i, k))
    out.append("pub fn q%d(x) { let y = [x]; len(y) + %d }" % (i, k + 6))
    out.append("pub struct W(int)\npub fn mk%d() -> W { W(%d) }\npub fn un%d(w: W) -> int { w.0 + len([0]) }" % (i, k + 2, i))
    return "\n".join(out)

def histories(lo, hi, n=N, steps=STEPS, chunk=300):
    """Phase 1: the submissions of every history, from the specification."""
    ops, gen, dist = {}, 0, 0
    for a in range(lo, hi + 1, chunk):
        r = vlib.tlc("Session", {"SeedLo": a, "SeedHi": min(hi, a + chunk - 1), "N": n, "Steps": steps, "Traced": False},
                     invariants=["FreshIsCurrent", "StaleHasReason", "Acyclic"], timeout=800)
        gen += r.generated; dist += r.distinct
        for l in r.lines:
            if "op" in l: ops.setdefault(l["op"], {}).setdefault(l["t"], []).append(l["o"])
    return ops, gen, dist

def run(c, lo, hi, n=N, steps=STEPS, modes=("hir", "mir", "opt"), chunk=300):
    ops, gen, dist = histories(lo, hi, n, steps, chunk)
    st = {"histories": 0, "submissions": 0, "validated": 0, "fresh": 0, "stale": 0, "failed": 0, "open": 0, "undecided": 0, "states": gen, "distinct": dist}
    jobs, ids = [], sorted(ops)
    for i in ids:
        seq = []
        for t in range(1, steps + 1):
            # the order of rebuilding may leave more than one next submission open: the recorded history decides, so the first is taken
            cand = ops[i][t]
            if any(o != cand[0] for o in cand): st["open"] += 1
            o = cand[0]
            seq.append({"name": "m%d" % o["m"], "src": source(o["m"], o["src"]), "upd": o["upd"], "mir": o["mir"], "modes": list(modes), "entry": "f"})
        jobs.append({"id": i, "session": seq, "names": names(n)})
    res = vlib.run_jobs(jobs, timeout=60)
    traces = {}
    for i, job, r in zip(ids, jobs, res):
        if "timeout" in r: st["undecided"] += 1; continue
        if "steps" not in r:
            c.violation("history %d: %s" % (i, json.dumps(r)[:400]), {"seed": i, "history": job["session"], "result": r}); continue
        traces[i] = [observed(job, t, s, ops[i], n) for t, s in enumerate(r["steps"], 1)]
        st["histories"] += 1
    # Phase 2: the recorded histories against the specification
    for a in range(lo, hi + 1, chunk):
        b = min(hi, a + chunk - 1)
        lines = [json.dumps({"steps": traces.get(i, [])}) for i in range(a, b + 1)]
        r = vlib.tlc("Session", {"SeedLo": a, "SeedHi": b, "N": n, "Steps": steps, "Traced": True}, timeout=800, files={"trace.ndjson": "\n".join(lines) + "\n"})
        st["states"] += r.generated; st["distinct"] += r.distinct
        seen = {}
        for l in r.lines:
            if "seen" in l: seen[l["seen"]] = max(seen.get(l["seen"], 0), l["t"])
        for i in range(a, b + 1):
            if i not in traces: continue
            k = seen.get(i, 0)
            st["validated"] += k; st["submissions"] += steps
            for o in traces[i]:
                st["failed"] += not o["ok"]; st["fresh"] += sum(m["ex"] and not m["stale"] for m in o["m"]); st["stale"] += sum(m["ex"] and m["stale"] for m in o["m"])
            if k < steps:
                job = jobs[ids.index(i)]
                c.violation("history %d: the state after submission %d (%s) is not one the specification allows: %s"
                            % (i, k + 1, job["session"][k]["name"], json.dumps(traces[i][k])),
                            {"seed": i, "submission": k + 1, "history": job["session"][:k + 1], "observed": traces[i][max(0, k - 1):k + 1]})
    return st

def observed(job, t, step, ops, n):
    out = []
    for i, m in enumerate(step["mods"]):
        if not m["ex"]:
            out.append({"ex": False, "stale": False, "has": False, "err": False, "deps": [], "vals": [], "rev": 0, "ver": 0, "text": ""}); continue
        if not m["stale"] and len(m["runs"]) != len(job["session"][t - 1]["modes"]): raise vlib.ToolError("runs missing")
        vals = []
        for x in m.get("runs", []):
            v = x.get("ok", None)
            if isinstance(v, str) and v.lstrip("-").isdigit(): v = int(v)
            vals.append(v if isinstance(v, int) and not isinstance(v, bool) else -7)
        out.append({"ex": True, "stale": m["stale"], "has": m["has"], "err": m["errors"] > 0,
                    "deps": [j for j in range(1, n + 1) if "m%d" % j in m["deps"]], "vals": vals, "rev": m["rev"],
                    "ver": m["ver"] if m["ver"] is not None else -1, "text": m["src"] or ""})
    ok = step.get("ok")
    if ok is None:
        i = int(job["session"][t - 1]["name"][1:]) - 1
        ok = step["updated"] and not out[i]["err"]
    return {"ok": ok, "m": out}
