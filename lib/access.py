"""Replay of spec/Access.tla: scoped accessors, what runs before, around and after an access (C07)."""
import vlib
MODES = ("hir", "mir", "opt")
LIB = '''struct S { v: int, d: int, ar: [int] }
struct G { n: int }
impl Value for G {
  fn eq(l: G, r: G) -> bool { l.n == r.n }
  fn to_string(v: G) -> string { "G" }
  fn hash(v: G, state: &mut hasher) { hash(v.n, state) }
  fn clone(v: G) -> G { G { n: v.n } }
  fn drop(v: &mut G) { host::dropped(v.n, 0) }
}
subscript c1(s: &mut S, k: int) -> int { ref { host::log(10 + k); let l = s.v; yield l; host::log(20 + k) } mut { host::log(30 + k); let mut l = s.v; yield l; host::log(40 + k); s.v = l; host::log(l) } }
subscript S.p(self) -> int { ref { host::log(110); let l = self.d; yield l; host::log(120) } mut { host::log(130); let mut l = self.d; yield l; host::log(140); self.d = l; host::log(l) } }
subscript ad(s: &mut S) -> int { ref mut { host::log(150); s.v } }
subscript S.w(self) -> int { ref mut { host::log(155); self.d } }
subscript at(xs: &mut [int], i: int) -> int { ref mut { host::log(160); xs[i] } }
subscript row(xs: &mut [int], i: int) -> int { ref { host::log(1110); let l = xs[i]; yield l; host::log(1120) } mut { host::log(1130); let mut l = xs[i]; yield l; host::log(1140); xs[i] = l; host::log(l) } }
subscript cells(s: &mut S) -> [int] { ref { host::log(210); let l = s.ar; yield l; host::log(220) } mut { host::log(230); let mut l = s.ar; yield l; host::log(240); s.ar = l } }
subscript cell(x: &mut int) -> int { ref { host::log(310); let l = x; yield l; host::log(320) } mut { host::log(330); let mut l = x; yield l; host::log(340); x = l; host::log(l) } }
subscript fp(s: &mut S, k: int) -> int { ref { host::log(610); let l = s.v; idiv(6, k); yield l; host::log(620) } mut { host::log(630); let mut l = s.v; idiv(6, k); yield l; host::log(640); s.v = l; host::log(l) } }
subscript fe(s: &mut S, k: int) -> int { ref { host::log(710); let l = s.v; yield l; idiv(6, k); host::log(720) } mut { host::log(730); let mut l = s.v; yield l; idiv(6, k); host::log(740); s.v = l; host::log(l) } }
subscript gd(s: &mut S, k: int) -> int { ref { let g = G { n: k }; host::log(810); let l = s.v; yield l; idiv(6, k); host::log(820) } mut { let g = G { n: k }; host::log(830); let mut l = s.v; { let h = G { n: k + 1 }; yield l; host::log(839) }; idiv(6, k); host::log(840); s.v = l; host::log(l) } }
subscript nest(s: &mut S) -> int { ref { host::log(910); let l = s.p; yield l; host::log(920) } mut { host::log(930); let mut l = s.p; yield l; host::log(940); s.p = l } }
subscript whole(s: &mut S, k: int) -> S { ref { host::log(1010); let l = s; yield l; host::log(1020) } mut { host::log(1030); let mut l = s; yield l; host::log(1040); s = l } }
subscript tk(s: &mut S) -> int { ref { host::log(1310); let d = s.d; host::log(d); let l = s.v; yield l; host::log(s.d); if s.d == d { host::log(1320) } } mut { host::log(1330); s.d = 7; let mut l = s.v; yield l; host::log(s.d); if s.d == 7 { host::log(1340) }; s.d = s.d + 1; s.v = l; host::log(l) } }
subscript sat(s: &mut [int]) -> [int] { ref { let g = G { n: 0 }; host::log(1210); let l = s; yield l; host::log(1220) } mut { let g = G { n: 0 }; host::log(1230); let mut l = s; { let h = G { n: 1 }; yield l; host::log(1239) }; host::log(1240); s = l } }
fn bump(x: &mut int) { host::log(500); x += 1; host::log(501) }
fn failm(x: &mut int) { host::log(510); x = 77; idiv(1, x - 77); () }
fn two(x: &mut int, y: int) { host::log(520); x += y }
fn add(x: int, y: int) -> int { host::log(77); x + y }
fn gp(x, k) { x.p += host::tap(k) }
fn via(s: &mut S, a, k: int, e: int) { s->[a](k) += host::tap(e) }
'''
def num(n): return str(n) if n >= 0 else "(-%d)" % -n

class Program:
    def __init__(self, l): self.seed, self.p, self.n = l["seed"], l["p"], 0
    def turn(self, m):
        self.n += 1
        return (self.seed * 7 + self.n * 5) % m
    def place(self, e):
        k, c = e["k"], e["c"]
        if k == "root": return e["s"]
        r = self.place(c[0])
        if k in ("fv", "fd", "far"): return "%s.%s" % (r, {"fv": "v", "fd": "d", "far": "ar"}[k])
        if k == "ix": return "%s[%s]" % (r, self.exp(c[1]))
        a = e["s"]
        if a in ("p", "w"): return "%s.%s" % (r, a)
        return "%s->[%s]%s" % (r, a, "" if c[1]["k"] == "none" else "(%s)" % self.exp(c[1]))
    def exp(self, e):
        k, c = e["k"], e["c"]
        if k == "lit": return num(e["n"])
        if k == "tap": return "host::tap(%s)" % num(e["n"])
        if k == "read":
            p = self.place(c[0])
            return "(%s)" % p if "->" in p else p
        if k in ("add", "fn", "div"): return ("(%s + %s)" if k == "add" else "add(%s, %s)" if k == "fn" else "idiv(%s, %s)") % (self.exp(c[0]), self.exp(c[1]))
        if k in ("blk", "jblk"): return "{ %s }" % self.block(c)
        raise ValueError(k)
    def block(self, c): return "; ".join(self.stmt(x) for x in c)
    def stmt(self, e):
        k, c = e["k"], e["c"]
        if k in ("set", "cp"): return "%s = %s" % (self.place(c[0]), self.exp(c[1]))
        if k == "op": return "%s += %s" % (self.place(c[0]), self.exp(c[1]))
        if k in ("bump", "failm"): return "%s(%s)" % (k, self.place(c[0]))
        if k == "two": return "two(%s, %s)" % (self.place(c[0]), self.exp(c[1]))
        if k == "app": return "array_append(%s, %s)" % (self.place(c[0]), self.exp(c[1]))
        if k == "log": return "host::log(%s)" % self.exp(c[0])
        if k == "obs":
            x = "z%d" % self.turn(1000)
            return "let %s = %s; host::log(%s)" % (x, self.exp(c[0]), x)
        if k == "if": return "if %s > %d { %s } else { %s }" % (self.exp(c[0]), e["n"], self.unit(c[1]["c"]), self.unit(c[2]["c"]))
        if k == "loop": return "for i in 0..%d { %s }" % (e["n"], self.unit(c))
        if k == "ret": return "return %s" % self.exp(c[0])
        if k in ("brk", "cont"): return {"brk": "break", "cont": "continue"}[k]
        if k == "gp": return "gp(%s, %d)" % (c[0]["s"], e["n"])
        if k == "via": return "via(%s, %s, %d, %d)" % (c[0]["s"], e["s"], e["n"], c[1]["n"])
        return self.exp(e)
    def unit(self, c):
        b = self.block(c)
        return b + ("; ()" if b and c[-1]["k"] not in ("ret", "brk", "cont") else "" if b else "()")
    def text(self):
        body = "%s; %s" % (self.block(self.p["body"]), self.exp(self.p["last"]))
        show = "host::log(s.v); host::log(s.d); host::log(len(s.ar)); for x in s.ar { host::log(x) };"
        return LIB + "fn f(s: &mut S, t: &mut S) -> int { %s }\nfn main() -> int { let mut s = S { v: 3, d: 5, ar: [1, 2, 3] }; let mut t = S { v: 2, d: 4, ar: [4, 0, 1] }; let r = f(s, t); %s %s r }" % (
            body, show, show.replace("s.", "t."))

def shown(v):
    a = [x["n"] for x in v["c"][2]["c"]]
    return ["L%d" % x for x in [v["c"][0]["n"], v["c"][1]["n"], len(a)] + a]

def run(check, lo, hi):
    st = {"states": 0, "trans": 0, "runs": 0, "o": {}, "acc": 0}
    for x in range(lo, hi + 1, 3000): chunk(check, x, min(hi, x + 2999), st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["runs"], "endings": st["o"], "scoped_accesses": st["acc"],
        "rule": "seeded functions of spec/Access.tla on chains of scoped accessors, addressors, fields and indices; events of prologues, epilogues, guards and operands, final state and ending compared in the hir, mir and opt modes"})

def chunk(check, lo, hi, st):
    r = vlib.tlc("Access", {"SeedLo": lo, "SeedHi": hi, "Quiet": "TRUE"}, invariants=["Nested", "AllClosed", "CellsGrow", "Ended"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": Program(l).text(), "exp": True, "runs": [{"entry": "main", "mode": m, "args": []} for m in MODES]} for l in ls]
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        want = ["%s%d" % (a, b) for a, b in l["lg"]] + (shown(l["st"]) + shown(l["tt"]) if l["o"] == "ok" else [])
        def bad(msg): check.violation("function %d: %s in\n%s" % (l["seed"], msg, job["src"][len(LIB):]), {"src": job["src"], "seed": l["seed"], "want": [want, l["o"], l["v"]], "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("rejected or crashed: " + str(got)[:400]); continue
        for m, g in zip(MODES, got["runs"]):
            log = [e.split(".")[0] for e in g["log"]]
            if log != want: bad("mode %s logs %s, specified %s" % (m, log, want)); break
            o = "ok" if "ok" in g else "fail" if "fail" in g else "cleanup" if "cleanup" in g else "?"
            if o != l["o"] or (o == "ok" and g["ok"] != l["v"]): bad("mode %s ends %s, specified %s %s" % (m, str({k: v for k, v in g.items() if k != "log"})[:300], l["o"], l["v"])); break
            st["runs"] += 1
        st["o"][l["o"]] = st["o"].get(l["o"], 0) + 1; st["acc"] += l["n"]
        check.sample({"src": job["src"][len(LIB):], "log": want}, 2)
