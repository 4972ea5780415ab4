"""Reduce a generated core program while a predicate on the replay holds. usage: shrink.py PROFILE SEED KEY [mode]
KEY: text the panic/failure must contain, or DIFF for a mode disagreement."""
import sys, copy, json; sys.path.insert(0, '/verif/lib')
import vlib, corecheck, render
prof, seed, key = sys.argv[1], int(sys.argv[2]), sys.argv[3]
progs, runs, _, _ = corecheck.spec_runs(prof, seed, seed)
p = progs[seed]
args = [r["args"] for r in runs if "run" in r]
def jobof(p, i=0):
    try: src = render.program(p, 1)
    except Exception: src = "!"
    return {"id": i, "src": src, "runs": [dict(entry="main", mode=m, args=a, fuel=200000) for a in args for m in ("hir", "mir", "opt")]}
def verdict(r):
    if key == "DIFF":
        if "runs" not in r: return False
        for k in range(len(args)):
            h = r["runs"][3*k:3*k+3]
            if any("sandbox" in q for q in h): return False
            if h[0] != h[1] or h[0].get("ok") != h[2].get("ok"): return True
        return False
    return key in json.dumps({k: v for k, v in r.items() if k in ("panic", "err", "runs")})
def bad(p): return verdict(vlib.run_jobs([jobof(p)], timeout=6)[0])
def size(p): return len(render.program(p, 1)) if True else 0
def nodes(p):
    out = []
    def walk(c, holder, ix):
        out.append((holder, ix))
        for i, x in enumerate(c.get("c", [])): walk(x, c["c"], i)
    for f in p["funs"] + [p["main"]]: walk(f["b"], f, "b")
    return out
def cands(p):
    n = len(nodes(p))
    for i in range(len(p["funs"])):
        q = copy.deepcopy(p); del q["funs"][i]; yield q
    for i in range(n):
        h, ix = nodes(p)[i]
        c = h[ix]
        if c["k"] == "block":
            for j in range(len(c["c"]) - (1 if c["n"] == 1 else 0)):
                q = copy.deepcopy(p); h2, x2 = nodes(q)[i]; del h2[x2]["c"][j]; yield q
        for j in range(len(c.get("c", []))):
            q = copy.deepcopy(p); h2, x2 = nodes(q)[i]; h2[x2] = h2[x2]["c"][j]; yield q
        if c["k"] not in ("int", "var", "block", "pat", "arm"):
            for k, v in (("int", 0), ("bool", 1), ("unit", 0)):
                q = copy.deepcopy(p); h2, x2 = nodes(q)[i]
                h2[x2] = {"k": k, "t": "", "s": "", "n": v, "c": []}; yield q
            if c["k"] in ("array",) and len(c["c"]) > 1:
                for j in range(len(c["c"])):
                    q = copy.deepcopy(p); h2, x2 = nodes(q)[i]; del h2[x2]["c"][j]; yield q
assert bad(p), "predicate does not hold"
import time
T=time.time()
changed = True
while changed:
    changed = False
    i = 0
    while True:
        cs = []
        for n, q in enumerate(cands(p)):
            if n < i: continue
            try:
                if size(q) < size(p): cs.append((n, q))
            except Exception: pass
            if len(cs) >= 32: break
        if not cs: break
        rs = vlib.run_jobs([jobof(q) for _, q in cs], timeout=5)
        hit = [x for x, r in zip(cs, rs) if verdict(r)]
        if hit:
            n, p = min(hit, key=lambda x: size(x[1])); changed = True; i = max(0, cs[0][0] - 2)
        else: i = cs[-1][0] + 1
        if time.time() - T > 600: changed = False; break
print(render.program(p, 1)); print(args)
