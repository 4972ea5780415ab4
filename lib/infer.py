"""Replay of spec/Infer.tla: inferred signatures, annotated instances and rejections (C13)."""
import re
import vlib
from vlib import log

def rx(e):
    k, o, c = e["k"], e["o"], e["c"]
    if k == "var": return o
    if k == "int": return "1"
    if k == "float": return "1.5"
    if k == "bool": return "true"
    if k == "str": return '"a"'
    a = [rx(x) for x in c]
    if k == "arith": return "(-%s)" % a[0] if o == "neg" else "(%s %s %s)" % (a[0], o, a[1])
    if k == "cmp": return "(%s < %s)" % tuple(a)
    if k == "eq": return "(%s == %s)" % tuple(a)
    if k == "logic": return "(not %s)" % a[0] if o == "not" else "((%s == true) and (%s == true))" % tuple(a)
    if k == "if": return "(if %s { %s } else { %s })" % tuple(a)
    if k == "tup": return "(%s, %s)" % tuple(a)
    if k == "arr": return "[%s]" % ", ".join(a)
    if k == "idx": return "%s[%s]" % tuple(a)
    if k == "proj": return "(%s).%d" % (a[0], o)
    if k == "show": return "to_string(%s)" % a[0]
    if k == "idiv": return "idiv(%s, %s)" % tuple(a)
    if k == "let": return "{ let %s = %s; %s }" % (o, a[0], a[1])
    if k == "lam": return "(|%s| %s)" % (o, a[0])
    if k == "app": return "(%s)(%s)" % (a[0], ", ".join(a[1:]))
    return "%s(%s)" % (o, ", ".join(a))

def ty(t, wild="_"):
    k = t["k"]
    if k == "none": return wild
    a = [ty(x) for x in t.get("a", [])]
    if k == "arr": return "[%s]" % a[0]
    if k == "tup": return "(%s)" % ", ".join(a)
    if k == "fun": return "(%s) -> %s" % (", ".join(a[:-1]), a[-1])
    if k == "unit": return "()"
    return k

def fun(f, ann=None):
    if not ann: return "fn %s(%s) { %s }" % (f["name"], ", ".join(f["ps"]), rx(f["body"]))
    ps = ["%s: %s" % (p, ty(a)) if a["k"] != "none" else p for p, a in zip(f["ps"], ann)]
    ret = "" if ann[-1]["k"] == "none" else " -> " + ty(ann[-1])
    return "fn %s(%s)%s { %s }" % (f["name"], ", ".join(ps), ret, rx(f["body"]))

# ---- signatures as printed by the implementation
def top_commas(s):
    out, depth = [""], 0
    for ch in s:
        if ch in "([{": depth += 1
        if ch in ")]}": depth -= 1
        if ch == "," and depth == 0: out.append("")
        else: out[-1] += ch
    return [x.strip() for x in out]

class Sig:
    def __init__(self, text):
        head, _, where = text.partition(" where ")
        self.toks = re.findall(r"->|\w+|[^\s\w]", re.sub(r"[₀-₉]+", lambda m: "", head))
        self.i = 0
        self.t = self.ty()
        assert self.i == len(self.toks), text
        self.names = []
        self.canon = self.show(self.t)
        self.cons = set()
        for part in top_commas(where):
            m = re.match(r"^([A-Z]\w*): (.*)$", part)
            if m and m.group(1) in self.names:
                for c in m.group(2).split(" + "):
                    if c in ("Num", "Ord"): self.cons.add((self.names.index(m.group(1)), c))
    def peek(self): return self.toks[self.i] if self.i < len(self.toks) else ""
    def eat(self, x):
        assert self.peek() == x, (self.toks, self.i, x); self.i += 1
    def ty(self):
        p = self.peek()
        if p == "[":
            self.eat("["); t = self.ty(); self.eat("]"); return ("arr", t)
        if p == "(":
            self.eat("("); a = []
            while self.peek() != ")":
                if self.peek() == "&": self.i += 1
                if self.peek() == "mut": self.i += 1
                a.append(self.ty())
                if self.peek() == ",": self.eat(",")
            self.eat(")")
            if self.peek() == "->":
                self.eat("->"); r = self.ty(); self.effects()
                return ("fun",) + tuple(a) + (r,)
            return ("tup",) + tuple(a) if a else ("unit",)
        self.i += 1
        return ("v", p) if re.match(r"^[A-Z]$", p) else (p,)
    def effects(self):
        if self.peek() != "!": return
        self.eat("!")
        if self.peek() == "(":
            while self.peek() != ")": self.i += 1
        self.i += 1
    def show(self, t):
        if t[0] == "v":
            if t[1] not in self.names: self.names.append(t[1])
            return ("v", self.names.index(t[1]))
        return (t[0],) + tuple(self.show(x) for x in t[1:])

def spec_ty(t):
    if t["k"] == "v": return ("v", t["n"] - 1)
    return (t["k"],) + tuple(spec_ty(x) for x in t["a"])
def spec_sig(v):
    return ("fun",) + tuple(spec_ty(a) for a in v["a"]) + (spec_ty(v["r"]),)
def spec_cons(v): return {(c["t"]["n"] - 1, c["c"]) for c in v["cs"]}

def differs(v, text):
    try: s = Sig(text)
    except Exception as e: return "unreadable signature %r (%r)" % (text, e)
    if s.canon != spec_sig(v): return "signature %s, specified %s" % (text, spec_sig(v))
    if s.cons != spec_cons(v): return "constraints of %s are %s, specified %s" % (text, sorted(s.cons), sorted(spec_cons(v)))
    return None

def run(check, lo, hi):
    st = {"states": 0, "trans": 0, "sigs": 0, "ann": 0, "neg": 0, "generic": 0, "open": 0}
    step = 3000
    for a in range(lo, hi + 1, step):
        chunk(check, a, min(hi, a + step - 1), st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["sigs"] + st["ann"] + st["neg"],
        "inferred_signatures": st["sigs"], "generic_signatures": st["generic"], "annotated_instances": st["ann"], "rejections": st["neg"], "left_open": st["open"],
        "infer_rule": "seeded unannotated functions; principal type, constraints and rejections from spec/Infer.tla (TLC invariants Principal, NoRescue) against the compiler's signatures"})

def chunk(check, lo, hi, st):
    r = vlib.tlc("Infer", {"SeedLo": lo, "SeedHi": hi}, invariants=["Principal", "NoRescue"], timeout=700)
    st["states"] += r.distinct; st["trans"] += r.generated
    jobs, want = [], []
    for l in sorted(r.lines, key=lambda l: l["seed"]):
        srcs = [fun(f) for f in l["prog"]]
        if srcs:
            jobs.append({"id": 0, "src": "\n".join(srcs), "sigs": [f["name"] for f in l["prog"]], "runs": []}); want.append(("pos", l, None))
        for a in l["anns"]:
            if a["v"]["ok"] == "odd": st["open"] += 1; continue
            jobs.append({"id": 0, "src": "\n".join(srcs[:-1] + [fun(l["prog"][-1], a["a"])]), "sigs": [l["prog"][-1]["name"]], "runs": []}); want.append(("ann", l, a))
        for n in l["neg"]:
            jobs.append({"id": 0, "src": "\n".join(srcs[:n["at"]] + [fun(n["f"])]), "sigs": [], "runs": []}); want.append(("neg", l, n))
    res = vlib.run_jobs(jobs, timeout=20)
    for job, (kind, l, x), got in zip(jobs, want, res):
        def bad(msg): check.violation("inference %d (%s): %s in %s" % (l["seed"], kind, msg, job["src"]), {"src": job["src"], "seed": l["seed"], "result": str(got)[:1500]})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "panic" in got or "dead" in got: bad(str(got)[:300]); continue
        rejected = "err" in got
        if kind == "pos":
            if rejected: bad("rejected: " + got["err"][:300]); continue
            for f, v in zip(l["prog"], l["sigs"]):
                d = differs(v, got["sigs"][f["name"]])
                if d: bad(f["name"] + ": " + d); break
                st["sigs"] += 1; st["generic"] += v["n"] > 0
            check.sample({"src": job["src"], "sigs": got["sigs"]}, 2)
        elif kind == "neg":
            if not rejected: bad("accepted, specified to be rejected (%s)" % x["why"])
            else: st["neg"] += 1
        else:
            name = l["prog"][-1]["name"]
            if x["v"]["ok"] == "yes":
                if rejected: bad("rejected: " + got["err"][:300]); continue
                d = differs(x["v"], got["sigs"][name])
                if d: bad(d)
                else: st["ann"] += 1
            elif not rejected: bad("accepted as %s, specified to be rejected (%s)" % (got["sigs"][name], x["v"]["why"]))
            else: st["ann"] += 1
