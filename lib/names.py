"""Replay of spec/Names.tla: visibility, paths, use declarations (C21)."""
import vlib
PATH = {"a": "a", "k": "a::k", "b": "b", "n": "n", "w": "w", "std": "std", "zz": "zz"}
BASE = {"a": 100, "k": 200, "b": 300, "n": 400}
NTH = {"f": 1, "g": 2, "count": 3, "T": 4, "U": 5, "E": 6, "R": 7}
W = "pub trait Who<Self> { fn who(x: Self) -> int; }\n"
VIS = {"ok": "accepted", "missing": "rejected", "twice": "rejected", "local": "rejected", "none": "rejected", "clash": "rejected"}

def use(q):
    """An expression that names the item of the query and gives its number."""
    x, f = q["x"], q["form"]
    p = (PATH[q["m"]] + "::" if q["k"] == "path" else "") + x
    if q["k"] == "meth": return "r(%d)" % f
    if x == "R": return "%s::r(%d)" % (p, f)
    if x == "E": return ["w::Who::who(%s::A(1))" % p, "w::Who::who(%s::B)" % p, "{ let z = %s::A(3); w::Who::who(z) }" % p, "w::Who::who(%s::C { k: 1 })" % p][f]
    if x in ("T", "U"): return ["w::Who::who(%s(1))", "{ let z = %s(3); w::Who::who(z) }", "(|| w::Who::who(%s(1)))()", "w::Who::who(%s(2))"][f] % p
    return ["%s([1, 2])", "{ let z = %s; z([1, 2]) }", "(|| %s([1, 2]))()", "%s({ [3, 4] })"][f] % p

def module(m, d):
    us, out, i = d["made"]["uses"], ["use w::Who;"], 0
    while i < len(us):
        u = us[i]
        # neighbours may be written as a group
        j = i + 1
        while u["st"] in (1, 2) and j < len(us) and us[j]["m"] == u["m"]: j += 1
        if j > i + 1 or u["st"] == 2: out.append("use %s::{%s};" % (PATH[u["m"]], ", ".join(v["x"] for v in us[i:j])))
        elif u["st"] == 3 and j < len(us) and {u["m"], us[j]["m"]} == {"a", "k"}:
            j += 1
            out.append("use a::{%s};" % ", ".join(("k::" if v["m"] == "k" else "") + v["x"] for v in us[i:j]))
        else: out.append("use %s::%s;" % (PATH[u["m"]], u["x"]))
        i = j
    for x in sorted(d["items"], key=lambda x: (NTH[x] * 7 + BASE[m] // 100) % 5):
        v, n = "pub " if x in d["pub"] else "", BASE[m] + NTH[x]
        if x in ("f", "g", "count"):
            q = d["made"][x]["q"] if x != "count" else []
            out.append("%sfn %s(x: [int]) -> int { %d%s }" % (v, x, n, " + " + use(q[0]) if q else ""))
        elif x in ("T", "U"): out.append("%sstruct %s(int)\nimpl Who for %s { fn who(x: %s) -> int { %d } }" % (v, x, x, x, n))
        elif x == "E": out.append("%senum E { A(int), B, C { k: int } }\nimpl Who for E { fn who(x: E) -> int { %d } }" % (v, n))
        else: out.append("%strait R<Self> { fn r(x: Self) -> int; }\nimpl R for int { fn r(x: int) -> int { %d } }" % (v, n))
    if m == "n":
        q = d["made"]["query"][0]
        if q["x"] in ("T", "U", "E") and q["form"] == 3: out.append("fn probe(x: %s) -> int { w::Who::who(x) }" % ((PATH[q["m"]] + "::" if q["k"] == "path" else "") + q["x"]))
        out.append("fn main() -> int { %s }" % use(q))
    return "\n".join(out) + "\n"

def run(check, lo, hi):
    r = vlib.tlc("Names", {"SeedLo": lo, "SeedHi": hi}, invariants=["Reach", "Imported", "Unshadowed", "OwnFirst"], timeout=700)
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = []
    for l in ls:
        mods = [{"name": "w", "src": W}] + [{"name": PATH[m], "src": module(m, l["mods"][m])} for m in ("a", "k", "b")]
        jobs.append({"id": 0, "name": "n", "src": module("n", l["mods"]["n"]), "mods": mods, "runs": [{"entry": "main", "mode": m, "args": []} for m in ("hir", "opt")]})
    verdicts = {}
    runs = 0
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        want, src = l["out"], "".join("// module %s\n%s" % (m["name"], m["src"]) for m in job["mods"][1:]) + "// module n\n" + job["src"]
        def bad(msg): check.violation("program %d: %s in\n%s" % (l["seed"], msg, src), {"seed": l["seed"], "src": src, "want": want, "result": got})
        verdicts[want["v"]] = verdicts.get(want["v"], 0) + 1
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if got.get("in"): bad("module %s is rejected: %s" % (got["in"], got["err"][:300])); continue
        if "panic" in got or "dead" in got: bad("panics: " + str(got)[:300]); continue
        if "err" in got:
            if want["v"] == "ok": bad("rejected: " + got["err"][:300])
            else: runs += 1
            continue
        if want["v"] != "ok": bad("accepted (%s), specified as an error (%s)" % (str(got.get("runs"))[:120], want["v"])); continue
        for g in got["runs"]:
            if g.get("ok") != want["n"]: bad("gives %s, specified %d" % (str(g)[:200], want["n"])); break
            runs += 1
        check.sample({"src": src, "value": want["n"]}, 2)
    check.coverage.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": runs, "verdicts": verdicts,
        "rule": "seeded sets of modules with public and private functions, structs, enums and traits, all forms of use declarations, and one way of naming an item; verdict and the number of the item reached"})
