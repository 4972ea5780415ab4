"""Replay of generated core programs (spec/CoreMC.tla) into the three execution modes."""
import json, re, time
import vlib, render
from vlib import log

MODES = ("hir", "mir", "opt")
KINDS = {"bounds": "Aborted: Array access out of bounds", "div": "Division by zero", "rem": "Remainder by zero",
         "panic": "Aborted", "boom": "Invalid argument", "match": "Aborted"}

def kind_of(fail):
    return fail

def spec_runs(profile, lo, hi, max_steps=1500, nargs=3, chunk=2500, timeout=800):
    progs, runs, gen, dist = {}, [], 0, 0
    for a in range(lo, hi + 1, chunk):
        b = min(hi, a + chunk - 1)
        r = vlib.tlc("CoreMC", {"Profile": profile, "SeedLo": a, "SeedHi": b, "MaxSteps": max_steps, "NArgs": nargs},
                     invariants=["NoDoubleDrop", "NoLeak"], view="View", timeout=timeout)
        gen += r.generated; dist += r.distinct
        for l in r.lines:
            if "prog" in l: progs[l["prog"]] = l
            else: runs.append(l)
    return progs, runs, gen, dist

def norm(log_, keep_marks=True):
    """Rename instance identities in order of appearance; drop the abandoned-aggregate marks."""
    out, ids = [], {}
    def name(i):
        if i not in ids: ids[i] = len(ids) + 1
        return str(ids[i])
    for ev in log_:
        ev = ev.lstrip("!")
        parts = ev.split(".")
        out.append(".".join([parts[0]] + [name(p) for p in parts[1:]]))
    return out

def elided(want, got, budget=60000):
    """Is `got` the specified log with some clones elided? Eliding the clone s -> n identifies the two instances and
    removes one of their drops; everything else keeps its place. F1: the drops marked "!" are missing too."""
    W = [(e[0] == "!", e.lstrip("!").split(".")) for e in want]
    G = [e.split(".") for e in got]
    import sys
    sys.setrecursionlimit(20000)
    n = [0]
    def go(i, j, grp, cnt, real):
        # grp: instance -> group; cnt: group -> drops still to come; real: group -> observed identity (None once dropped)
        while True:
            n[0] += 1
            if n[0] > budget: return False
            if i == len(W): return j == len(G)
            w = W[i][1]; k = w[0][0]; g = G[j] if j < len(G) else None
            if k == "N":
                if g is None or g[0] != w[0]: return False
                grp = {**grp, w[1]: w[1]}; cnt = {**cnt, w[1]: 1}; real = {**real, w[1]: g[1]}
                i += 1; j += 1; continue
            if k == "C":
                gs = grp.get(w[1])
                if g is not None and g[0] == w[0] and g[1] == real.get(gs):
                    if go(i + 1, j + 1, {**grp, w[2]: w[2]}, {**cnt, w[2]: 1}, {**real, w[2]: g[2]}): return True
                grp = {**grp, w[2]: gs}; cnt = {**cnt, gs: cnt[gs] + 1}
                i += 1; continue
            if k == "D":
                gs = grp.get(w[1])
                c2 = {**cnt, gs: cnt[gs] - 1}
                can_skip = real[gs] is None or cnt[gs] > 1
                if real[gs] is not None and g is not None and g[0] == w[0] and g[1] == real[gs]:
                    r2 = {**real, gs: None}
                    if not can_skip: i += 1; j += 1; cnt = c2; real = r2; continue
                    if go(i + 1, j + 1, grp, c2, r2): return True
                if not can_skip: return False
                i += 1; cnt = c2; continue
            if g is None or g[0] != w[0]: return False
            i += 1; j += 1
    return go(0, 0, {}, {}, {})

def strip_ids(v):
    """Value with the identities of tracked instances removed."""
    return v

class Outcome: pass

def compare(run, got, mode):
    """None if the observed run is the specified one, else a description. 'F1' marks the known HIR deviation."""
    want_log = run["log"]
    glog = got["log"]
    if run["o"] == "ok":
        if "ok" not in got: return "specified a value, got %s" % short(got)
        if not same_value(render.value(run["v"]), got["ok"], mode): return "value %s, specified %s" % (json.dumps(got["ok"]), json.dumps(render.value(run["v"])))
    else:
        if "fail" not in got: return "specified failure %s, got %s" % (run["s"], short(got))
        if not got["fail"].startswith(KINDS[run["s"]]): return "failure %r, specified %s" % (got["fail"], run["s"])
    if norm(want_log) == norm(glog): return None
    if mode == "hir" and any(e[0] == "!" for e in want_log):
        if norm([e for e in want_log if e[0] != "!"]) == norm(glog): return "F1"
    if mode == "opt" and any(e.lstrip("!")[0] == "C" for e in want_log):
        if elided(want_log, glog): return None
    return "log %s, specified %s" % (norm(glog), norm(want_log))

def short(g):
    return json.dumps({k: v for k, v in g.items() if k != "log"})[:300]

def same_value(want, got, mode):
    if isinstance(want, dict) and isinstance(got, dict):
        if "d" in want: return "tup" in got and len(got["tup"]) == 2 and got["tup"][1] == want["d"]
        if "tup" in want and "tup" in got:
            return len(want["tup"]) == len(got["tup"]) and all(same_value(a, b, mode) for a, b in zip(want["tup"], got["tup"]))
        if "arr" in want and "arr" in got:
            return len(want["arr"]) == len(got["arr"]) and all(same_value(a, b, mode) for a, b in zip(want["arr"], got["arr"]))
        if "tag" in want and "tag" in got:
            if want["tag"] != got["tag"]: return False
            p = want["p"]
            if not p: return "p" not in got
            if len(p) == 1:
                g = got.get("p")
                return same_value(p[0], g, mode) or same_value({"tup": p}, g, mode)
            return same_value({"tup": p}, got.get("p"), mode)
        return want == got
    return type(want) == type(got) and want == got

def run_profile(check, profile, lo, hi, modes=MODES, max_steps=1500, annotate=1, extra_job=None):
    """Explore and replay; returns counts."""
    progs, runs, gen, dist = spec_runs(profile, lo, hi, max_steps)
    by = {}
    for r in runs:
        if r["o"] != "discard": by.setdefault(r["run"], []).append(r)
    ids = sorted(by)
    jobs = []
    for i in ids:
        src = render.program(progs[i], annotate)
        by[i].sort(key=lambda r: r["arg"])
        jobs.append({"id": i, "src": src, "runs": [dict(entry="main", mode=m, args=r["args"]) for r in by[i] for m in modes]})
    t = time.time()
    res = vlib.run_jobs(jobs, timeout=6)
    log("replayed %d programs in %.1fs" % (len(jobs), time.time() - t))
    st = {"programs": len(jobs), "runs": 0, "rejected": 0, "fails": 0, "tracked": 0, "events": 0, "states": gen, "distinct": dist,
          "discarded": len(runs) - sum(map(len, by.values())), "f1": 0, "validated": 0, "undecided": 0}
    for i, job, r in zip(ids, jobs, res):
        if "timeout" in r:
            st["undecided"] += 1      # the debug-only MIR verifier is exponential in branches (DESIGN.md, V1)
            continue
        if "panic" in r or "dead" in r:
            check.violation("program %s/%d: %s" % (profile, i, json.dumps(r)[:400]), {"profile": profile, "seed": i, "src": job["src"], "result": r})
            continue
        if "err" in r:
            st["rejected"] += 1
            st.setdefault("errs", []).append((i, r["err"][:1000], job["src"]))
            continue
        k = 0
        for run in by[i]:
            st["runs"] += 1
            st["events"] += len(run["log"])
            if run["o"] == "fail": st["fails"] += 1
            if any(e[0] in "ND" for e in run["log"]): st["tracked"] += 1
            bad = None
            for m in modes:
                got = r["runs"][k]; k += 1
                d = compare(run, got, m)
                if d == "F1": st["f1"] += 1
                elif d is not None and bad is None:
                    bad = (m, d, got)
            if bad:
                check.violation("program %s/%d args %s mode %s: %s" % (profile, i, run["args"], bad[0], bad[1]),
                                {"profile": profile, "seed": i, "args": run["args"], "mode": bad[0], "src": job["src"],
                                 "specified": {"o": run["o"], "s": run["s"], "v": run["v"], "log": run["log"]}, "observed": bad[2]})
            else:
                st["validated"] += 1
                if len(run["log"]) > 3: check.sample({"profile": profile, "seed": i, "args": run["args"], "outcome": run["o"], "log": run["log"][:12]})
    return st
