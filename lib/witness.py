"""Known findings: each entry names the input that fails; it is replayed on every run of its property's check."""
import json
import vlib

def replay(c):
    for k in c.known:
        job = {"id": 0, "src": k["src"], "fresh": True, "exp": True, "sigs": list(k["expect"].get("sigs", {})),
               "runs": [dict(entry=k.get("entry", "main"), mode=m, args=k.get("args", [])) for m in k["modes"]]}
        w = vlib.Worker()
        r = w.call(job, 30)
        w.stop()
        if still_fails(k, r):
            c.known_finding(k["id"], k["what"])
        c.coverage["known_findings_replayed"] = c.coverage.get("known_findings_replayed", 0) + 1

def still_fails(k, r):
    """True while the observed outcome is not the specified one."""
    if "panic" in r or "dead" in r: return True
    if k["expect"].get("rejected"): return "err" not in r
    if "runs" not in r: return True
    # effects a signature must show
    for f, effs in k["expect"].get("sigs", {}).items():
        if any(e not in r.get("sigs", {}).get(f, "").split("!")[-1] for e in effs): return True
    for got in r["runs"]:
        want = k["expect"]
        o = {x: v for x, v in got.items() if x != "log"}
        if "fail" in want:
            if not str(o.get("fail", "")).startswith(want["fail"]): return True
        elif o.get("ok", object()) != want["ok"]: return True
        if "log" in want and [e.split(".")[0] for e in got["log"]] != want["log"]: return True
    return False
