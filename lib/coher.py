"""Replay of spec/Coh.tla: coherence of trait implementations (C22)."""
import vlib
OWN = {"A": "a", "GA": "a", "PA": "a", "B": "b", "GB": "b", "C": "c"}
KV = {"int": 1, "string": 2, "A": 3, "B": 4, "arr": 10}
TM = {"R": "r", "Q": "q"}
USES = {"a": "use t::K;\n", "b": "use t::K; use a::{R, A, GA, PA};\n", "c": "use t::K; use a::{R, A, GA, PA}; use b::{Q, B, GB};\n"}
DEFS = {"a": "pub trait R<Self> { fn r(x: Self) -> int; }\npub struct A(int)\npub struct GA<V>(V)\npub struct PA<V, W>(V, W)\n",
        "b": "pub trait Q<Self> { fn q(x: Self) -> int; }\npub struct B(int)\npub struct GB<V>(V)\npub fn via_R(x) -> int { a::R::r(x) }\npub fn via_Q(x) -> int { Q::q(x) }\n",
        "c": "pub struct C(int)\n"}

def ty(t):
    if t[0] == "arr": return "[%s]" % ty(t[1])
    return t[0] + ("<%s>" % ", ".join(ty(x) for x in t[1:]) if len(t) > 1 else "")
def value(t):
    k = t[0]
    if k == "int": return "t::i()"
    if k == "string": return '"s"'
    if k == "arr": return "[%s]" % value(t[1])
    return "%s::%s(%s)" % (OWN[k], k, ", ".join(value(x) for x in t[1:]) or "3")
def has(t, v): return t[0] == v or any(has(x, v) for x in t[1:])
def kimpl(ts): return "".join("impl K for %s { fn k(x: %s) -> int { %d } }\n" % (ty(t), ty(t), KV[t[0]]) for t in sorted(ts))
def uses_k(i): return i["cond"] and i["head"] in (["GA", ["V"]], ["GB", ["V"]])

def impl(i):
    vs = [v for v in "VW" if has(i["head"], v)]
    h, m = ty(i["head"]), TM[i["tr"]]
    cs = ["%s: Value" % v for v in vs] + (["V: K"] if i["cond"] else [])
    body = "%d%s" % (i["n"] * 1000, " + K::k(x.0)" if uses_k(i) else "")
    return "impl%s %s for %s%s { fn %s(x: %s) -> int { %s } }\n" % ("<%s>" % ", ".join(vs) if vs else "", i["tr"], h, " where " + ", ".join(cs) if cs else "", m, h, body)

def modules(p):
    out = [{"name": "t", "src": "pub trait K<Self> { fn k(x: Self) -> int; }\npub fn i() -> int { 5 }\n" + kimpl(p["kt"])
            + ("impl<V> K for [V] where V: Value, V: K { fn k(x: [V]) -> int { 10 } }\n" if p["karr"] else "")}]
    for m in "abc":
        own = [impl(i) for i in p["impls"] if i["m"] == m]
        k = p["shuf"] % max(1, len(own))
        own = own[k:] + own[:k]
        if p["shuf"] == 4: own.reverse()
        out.append({"name": m, "src": USES[m] + DEFS[m] + kimpl(p["ka"] if m == "a" else p["kb"] if m == "b" else []) + "".join(own)})
    return out

def run(check, lo, hi):
    r = vlib.tlc("Coh", {"SeedLo": lo, "SeedHi": hi}, invariants=["Coherent", "Ordered"], timeout=700)
    by = {}
    for l in r.lines:
        if l["seed"] in by and by[l["seed"]]["v"] != l["v"]: raise RuntimeError("verdict depends on the order: %d" % l["seed"])
        by.setdefault(l["seed"], l)
    plan = []
    for s in sorted(by):
        l = by[s]
        ms = modules(l["p"])
        if l["v"] != "loaded":
            plan.append((l, None, {"id": 0, "name": "n", "src": "fn main() -> int { 0 }\n", "mods": ms, "runs": []}))
            continue
        for q in l["q"]:
            form = l["p"]["form"]
            mine = [l["p"]["impls"][i - 1] for i in q["by"]]
            if form == "own" and any(i["m"] == "c" and has(i["head"], "V") for i in mine): form = "generic"   # a module does not see its own generic implementations (F43)
            call = {"R": "a::R::r", "Q": "b::Q::q"}[q["tr"]]
            v = value(q["t"])
            runs = [{"entry": "main", "mode": m, "args": []} for m in ("hir", "opt")]
            if form == "own":
                v = v.replace("c::C", "C")
                plan.append((l, q, {"id": 0, "name": "c", "src": ms[3]["src"] + "fn main() -> int { %s(%s) }\n" % (call, v), "mods": ms[:3], "runs": runs}))
            else:
                body = {"direct": "fn main() -> int { %s(%s) }\n" % (call, v), "generic": "fn call(x) -> int { %s(x) }\nfn main() -> int { call(%s) }\n" % (call, v),
                        "viab": "fn main() -> int { b::via_%s(%s) }\n" % (q["tr"], v)}[form]
                plan.append((l, q, {"id": 0, "name": "n", "src": body, "mods": ms, "runs": runs}))
    verdicts, n = {}, 0
    for (l, q, job), got in zip(plan, vlib.run_jobs([j for _, _, j in plan], timeout=30)):
        src = "".join("// module %s\n%s" % (m["name"], m["src"]) for m in job["mods"]) + "// module %s\n%s" % (job["name"], job["src"])
        def bad(msg): check.violation("program %d: %s in\n%s" % (l["seed"], msg, src), {"seed": l["seed"], "src": src, "want": {"v": l["v"], "at": l["at"], "kinds": l["kinds"], "q": q}, "result": got})
        key = l["v"] if q is None else "found" if q["by"] else "not found"
        verdicts[key] = verdicts.get(key, 0) + 1
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "panic" in got or "dead" in got: bad("panics: " + str(got)[:300]); continue
        if l["v"] == "late": continue
        if l["v"] == "rejected":
            if got.get("in") != l["at"]: bad("specified to be rejected in module %s (%s), got %s" % (l["at"], l["kinds"], str(got)[:300])); continue
            if not any(k in got["err"] for k in l["kinds"]): bad("rejected otherwise than %s: %s" % (l["kinds"], got["err"][:300])); continue
            n += 1
            continue
        if got.get("in") and got["in"] != job["name"]: bad("module %s is rejected: %s" % (got["in"], got["err"][:300])); continue
        if not q["by"]:
            if "err" not in got: bad("no implementation of %s applies to %s, but it is accepted" % (q["tr"], ty(q["t"]))); continue
            n += 1
            continue
        if "err" in got: bad("an implementation of %s applies to %s, but: %s" % (q["tr"], ty(q["t"]), got["err"][:300])); continue
        i = l["p"]["impls"][q["by"][0] - 1]
        want = i["n"] * 1000 + (KV[q["t"][1][0]] if uses_k(i) else 0)
        for x, m in zip(got["runs"], ("hir", "opt")):
            if x.get("ok") != want: bad("%s of %s gives %s in %s, specified %d" % (q["tr"], ty(q["t"]), str(x)[:200], m, want)); break
        else:
            n += 1
            check.sample({"src": src, "query": [q["tr"], ty(q["t"])], "value": want}, 2)
    check.coverage.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": n, "verdicts": verdicts,
        "rule": "seeded sets of implementations (heads with variables and conditions) over three modules added in every order; the verdict per module, and for each query the one implementation that applies"})
