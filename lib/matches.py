"""C10: matches generated by spec/Match.tla: acceptance, the arms selected and what they bind."""
import json
import vlib
INTS, STRS = (0, 1, -3, 7), ("\"\"", "\"a\"", "\"bé\"", "\"zzz\"")
TAGS, FIELDS = "ABCD", ("z", "a", "m")
MODES = ("hir", "mir", "opt")

class Program:
    def __init__(self, l):
        self.p, self.n = l["p"], 0
        self.structs = {}
    def variants(self, T): return [{"kind": 0, "ts": []}, {"kind": 1, "ts": [T["t"]]}] if T["k"] == "opt" else self.p["es"][T["id"] - 1]
    def tag(self, T, i): return ("None", "Some")[i - 1] if T["k"] == "opt" else TAGS[i - 1]
    def ty(self, T):
        k = T["k"]
        if k in ("bool", "int"): return k
        if k == "str": return "string"
        if k == "never": return "Nothing"
        if k == "tup": return "(%s)" % ", ".join(map(self.ty, T["ts"]))
        if k == "rec": return "{%s}" % ", ".join("%s: %s" % (FIELDS[i], self.ty(t)) for i, t in enumerate(T["ts"]))
        if k == "struct": return "St"
        if k == "opt": return "Option<%s>" % self.ty(T["t"])
        return "E%d" % T["id"]
    def decls(self):
        out = ["enum Nothing {}"]
        for i, vs in enumerate(self.p["es"], 1):
            o = []
            for j, v in enumerate(vs):
                o.append(TAGS[j] + ("" if v["kind"] == 0 else "(%s)" % ", ".join(map(self.ty, v["ts"])) if v["kind"] == 1
                                    else " { %s }" % ", ".join("%s: %s" % (FIELDS[x], self.ty(t)) for x, t in enumerate(v["ts"]))))
            out.append("enum E%d { %s }" % (i, ", ".join(o)))
        if self.p["t"]["k"] == "struct":
            out.append("struct St { %s }" % ", ".join("%s: %s" % (FIELDS[i], self.ty(t)) for i, t in enumerate(self.p["t"]["ts"])))
        return out
    def value(self, T, v, rev=False, pattern=False):
        """The expression (or literal pattern) of a flat value; returns it and the rest."""
        k = T["k"]
        if k == "bool": return ("true" if v[0] else "false"), v[1:]
        if k == "int": return str(INTS[v[0]]), v[1:]
        if k == "str": return STRS[v[0]], v[1:]
        if k in ("tup", "rec", "struct"):
            es = []
            for t in T["ts"]:
                e, v = self.value(t, v, rev, pattern); es.append(e)
            if k == "tup": return "(%s)" % ", ".join(es), v
            fs = ["%s: %s" % (FIELDS[i], e) for i, e in enumerate(es)]
            return ("St " if k == "struct" and not pattern else "") + "{ %s }" % ", ".join(fs[::-1] if rev else fs), v
        i, v = v[0], v[1:]
        w = self.variants(T)[i - 1]
        es = []
        for t in w["ts"]:
            e, v = self.value(t, v); es.append(e)
        name = ("" if T["k"] == "opt" else "E%d::" % T["id"]) + self.tag(T, i)
        if w["kind"] == 0: return name, v
        if w["kind"] == 1: return "%s(%s)" % (name, ", ".join(es)), v
        return "%s { %s }" % (name, ", ".join("%s: %s" % (FIELDS[x], e) for x, e in enumerate(es))), v
    def show(self, T, x):
        """Statements logging a bound variable, and the number of them."""
        k = T["k"]
        if k == "bool": return ["host::log(if %s { 1 } else { 0 });" % x]
        if k == "int": return ["host::log(%s);" % x]
        if k == "str": return ["host::log(len(%s));" % x]
        if k == "tup": return sum((self.show(t, "%s.%d" % (x, i)) for i, t in enumerate(T["ts"])), [])
        if k == "rec": return sum((self.show(t, "%s.%s" % (x, FIELDS[i])) for i, t in enumerate(T["ts"])), [])
        return []
    def shown(self, T, v):
        """What show logs for a value; returns it and the rest."""
        k = T["k"]
        if k in ("bool", "str"): return [v[0]], v[1:]
        if k == "int": return [INTS[v[0]]], v[1:]
        if k in ("tup", "rec"):
            out = []
            for t in T["ts"]:
                o, v = self.shown(t, v); out += o
            return out, v
        return [], v
    def match(self, m, T, scrut, id):
        arms = []
        for j, a in enumerate(m["arms"], 1):
            p, aid = a["pat"], id * 10 + j
            stm, names = ["host::log(%d);" % aid], {}
            if p["k"] == "lit": pat, _ = self.value(T, p["v"], p["rev"], True)
            else:
                v = self.variants(T)[p["tag"] - 1]
                for x in p["xs"]: names[x] = FIELDS[x - 1] if v["kind"] == 2 else "p%d_%d" % (aid, x)
                pat = ("E%d::" % T["id"] if p["qual"] else "") + self.tag(T, p["tag"])
                if v["kind"] == 1 and names: pat += "(%s)" % ", ".join(names[x] for x in p["xs"])
                if v["kind"] == 2 and names: pat += " { %s%s }" % (", ".join(names[x] for x in p["xs"]), ", .." if p["dots"] else "")
                for x in p["xs"]: stm += self.show(v["ts"][x - 1], names[x])
            b = a["body"]
            if b["k"] == "leaf": stm.append(str(aid))
            elif b["k"] == "ret": stm.append("return %d" % aid)
            else: stm.append(self.match(b["m"], self.variants(T)[p["tag"] - 1]["ts"][b["x"] - 1], names.get(b["x"], "nosuch"), aid))
            arms.append("%s => { %s }" % (pat, " ".join(stm)))
        if m["def"]: arms.append("_ => { host::log(%d); %d }" % (id * 10 + 9, id * 10 + 9))
        return "match %s { %s }" % (scrut, ", ".join(arms))
    def source(self):
        p = self.p
        sc = ("v", "tk(v)", "w.0", "[v, v][1]", "{ host::log(900); v }", "g(v)")[p["scrut"]]
        pre = {2: "let w = (v, 1); ", 5: "let g = |y| { host::log(900); y }; "}.get(p["scrut"], "")
        m = self.match(p["m"], p["t"], sc, 1)
        body = ("%s", "let r = %s; r", "0 + (%s)", "if true { %s } else { 0 }")[p["pos"]] % m
        out = self.decls() + ["fn tk(x) { host::log(900); x }",
                              "fn m0(v%s) -> int { %s%s }" % (": " + self.ty(p["t"]) if p["ann"] else "", pre, body)]
        calls = []
        for i, v in enumerate(p["ins"]):
            calls.append("let x%d: %s = %s; host::log(m0(x%d));" % (i, self.ty(p["t"]), self.value(p["t"], v)[0], i))
        out.append("fn main() -> int { %s 0 }" % " ".join(calls))
        return "\n".join(out)
    def expected(self, log):
        out = []
        for es in log:
            if self.p["scrut"] in (1, 4, 5): out.append(900)
            T, m = self.p["t"], self.p["m"]
            for e in es:
                out.append(e["id"])
                j = e["id"] % 10
                if j == 9: continue
                a = m["arms"][j - 1]
                if a["pat"]["k"] == "var":
                    ts = self.variants(T)[a["pat"]["tag"] - 1]["ts"]
                    for x, b in zip(a["pat"]["xs"], e["b"]): out += self.shown(ts[x - 1], b)[0]
                    if a["body"]["k"] == "match": T, m = ts[a["body"]["x"] - 1], a["body"]["m"]
            out.append(es[-1]["id"])
        return out

def run(c, lo, hi, maxin, chunk=1500):
    st = {"accepted": 0, "rejected": {}, "runs": 0, "inputs": 0, "open": 0, "undecided": 0, "states": 0, "distinct": 0}
    for a in range(lo, hi + 1, chunk):
        r = vlib.tlc("Match", {"SeedLo": a, "SeedHi": min(hi, a + chunk - 1), "MaxIn": maxin}, invariants=["AcceptedSelects", "MissingIsFelt"], timeout=800)
        st["states"] += r.generated; st["distinct"] += r.distinct
        ls = [l for l in r.lines if "seed" in l]
        ps = [Program(l) for l in ls]
        jobs = [{"id": l["seed"], "src": p.source(), "runs": [{"entry": "main", "mode": m} for m in MODES]} for l, p in zip(ls, ps)]
        for l, p, job, g in zip(ls, ps, jobs, vlib.run_jobs(jobs, timeout=20)):
            why = l["why"]
            def bad(what): c.violation("match %d (%s): %s" % (l["seed"], why, what), {"seed": l["seed"], "src": job["src"], "expected": why, "got": g})
            if "timeout" in g: st["undecided"] += 1; continue
            if "panic" in g or "dead" in g: bad(json.dumps(g)[:300]); continue
            if why != "ok":
                if "err" not in g: bad("accepted, specified to be rejected")
                st["rejected"][why] = st["rejected"].get(why, 0) + 1
                continue
            if "err" in g and l["open"] and "TypeMismatch" in g["err"]: st["open"] += 1; continue
            if "err" in g: bad("rejected: " + g["err"][:300]); continue
            st["accepted"] += 1
            want = p.expected(l["log"])
            for m, x in zip(MODES, g["runs"]):
                have = [int(e[1:]) if isinstance(e, str) else e[1] for e in x["log"]]
                st["runs"] += 1; st["inputs"] += len(l["p"]["ins"])
                if "ok" not in x: bad("%s: run gives %s" % (m, json.dumps(x)[:200])); break
                if have != want: bad("%s: arms and bindings %s, specified %s" % (m, have, want)); break
    return st
