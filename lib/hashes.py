"""Replay of spec/Hash.tla: histories of operations on sets and maps (C16)."""
import vlib
MODES = ("hir", "mir", "opt")
TYPES = {"int": "int", "str": "string", "pair": "(int, string)", "arr": "[int]", "opt": "Option<int>", "clash": "H", "set": "set<int>", "struct": "P", "float": "float", "deep": "[Option<(int, string)>]"}
KEYS = {"int": "x", "str": "string_byte_len(x)", "pair": "x.0", "arr": "len(x) * 0 + x[0]", "opt": "match x { Some(v) => v, None => 0 }", "clash": "x.x",
        "set": "fold(x, 0, |acc, e| { let r: int = e; acc + r }) - 1000", "struct": "x.a", "float": "round(x)",
        "deep": "match x[1] { Some(p) => p.0, None => 0 }"}
# built from an int known when it runs
MAKE = {"int": "x", "str": '{ let mut s = ""; for i in 0..x { string_push_str(s, "a") }; s }', "pair": '(x, f"k{mod(x, 3)}")', "arr": "[x, mod(x, 2)]", "opt": "if x == 0 { None } else { Some(x) }",
        "clash": "H { x: x, y: host::src(1) }", "set": "if mod(x, 2) == 0 { set { 1000, x } } else { set { x, 1000 } }", "struct": "P { a: x, b: (mod(x, 2) == 0, \"q\") }",
        "float": "(x as float)", "deep": 'if x == 0 { [None, None] } else { [None, Some((x, "d"))] }'}
PRE = {"clash": """struct H { x: int, y: int }
impl Value for H {
  fn eq(left: H, right: H) -> bool { left.x == right.x }
  fn to_string(value: H) -> string { "H" }
  fn hash(value: H, state: &mut hasher) { hasher_write_int(state, bit_and(value.x, 3)) }
  fn clone(source: H) -> H { H { x: source.x, y: source.y } }
  fn drop(target: &mut H) { }
}
""", "struct": "struct P { a: int, b: (bool, string) }\n"}
S, M = [None, "s", "t"], [None, "m", "n"]
def stmt(op, t):
    o, s, u, m, w = op["o"], S[op["i"]], S[op["j"]], M[op["i"]], M[op["j"]]
    x, y, n = "key(%d)" % op["x"], "key(%d)" % op["y"], op["n"]
    b = lambda e: "host::log(if %s { 1 } else { 0 });" % e
    opt = lambda e: "match %s { Some(v) => host::log(v), None => host::log(-1) };" % e
    end = "%s + %d" % (op["x"], n)
    run = "in %d..min(%s, KMAX)" % (op["x"], end)
    if o == "ins": return b("set_insert(%s, %s)" % (s, x))
    if o == "has": return b("set_contains(%s, %s)" % (s, x))
    if o == "len": return "host::log(len(%s));" % s
    if o == "copy": return "%s = %s;" % (s, u) if t % 2 else "{ let c = %s; %s = c };" % (u, s)
    if o == "eq": return b("%s == %s" % (s, u))
    if o == "clr": return "%s = %s;" % (s, ("set {}", "empty()", "hash_set_new()")[t % 3])
    if o == "iter": return "for e in %s { host::log(lab(e)) };" % s
    if o == "fill": return "{ let mut c = 0; for i %s { if set_insert(%s, key(i)) { c += 1 } }; host::log(c) };" % (run, s)
    if o == "union": return "for e in %s { set_insert(%s, e); };" % (u, s)
    if o == "step": return "{ let mut c = 0; for e in %s { if set_insert(%s, key(mod(lab(e) + 1, KMAX))) { c += 1 } }; host::log(c) };" % (s, s)
    if o == "lit": return "%s = set { %s, %s }; host::log(len(%s));" % (s, x, y, s)
    if o == "collect": return "%s = { let mut q = [%s]; for i %s { array_append(q, key(i)) }; collect(q) };" % (s, y, run)
    if o == "byref": return "host::log(add2(%s, %s, %s));" % (s, x, y)
    if o == "byval": return "host::log(with(%s, %s));" % (s, x)
    if o == "cap": return "{ let c = |i| { let v: int = i; set_contains(%s, key(v)) }; set_insert(%s, %s); %s };" % (s, s, x, b("c(%d)" % op["x"])[:-1])
    if o == "same": return "{ let mut q: [T] = collect(%s); reverse(q); let c: set<T> = collect(q); %s };" % (s, b("c == %s and value_hash(c) == value_hash(%s)" % (s, s))[:-1])
    if o == "put": return opt("map_insert(%s, %s, %d)" % (m, x, n))
    if o == "get": return opt("map_get(%s, %s)" % (m, x))
    if o == "mhas": return b("map_contains_key(%s, %s)" % (m, x))
    if o == "mkv": return b("map_contains_key_value(%s, %s, %d)" % (m, x, n))
    if o == "mlen": return "host::log(len(%s));" % m
    if o == "mcopy": return "%s = %s;" % (m, w) if t % 2 else "{ let c = %s; %s = c };" % (w, m)
    if o == "meq": return b("%s == %s" % (m, w))
    if o == "mclr": return "%s = %s;" % (m, ("map {}", "empty()", "hash_map_new()")[t % 3])
    if o == "miter": return "for e in %s { host::log(lab(e.0) * 100 + e.1) };" % m
    if o == "mfill": return "{ let mut c = 0; for i %s { match map_insert(%s, key(i), mod(i + %d, 20)) { Some(v) => { c += 1 }, None => () } }; host::log(c) };" % (run, m, op["y"])
    if o == "merge": return "for e in %s { map_insert(%s, e.0, e.1); };" % (w, m)
    if o == "mlit": return "%s = map { %s => %d, %s => 3 };" % (m, x, n, y)
    if o == "mcollect": return "%s = { let mut q: [(T, int)] = []; for i %s { array_append(q, (key(i), 1)) }; array_append(q, (%s, %d)); collect(q) };" % (m, run, y, n)
    if o == "mbyref": return "mput(%s, %s, %d); %s" % (m, x, n, opt("map_get(%s, %s)" % (m, x)))
    if o == "msame": return "{ let mut q: [(T, int)] = collect(%s); reverse(q); let c: map<T, int> = collect(q); %s };" % (m, b("c == %s" % m)[:-1])
    if o == "keys": return "{ let mut c = set {}; for e in %s { set_insert(c, e.0); }; %s = c };" % (m, u)
    if o == "inv": return "{ let mut c = map {}; for e in %s { map_insert(c, e, %d); }; %s = c };" % (s, n, w)
    if o == "zins": return b("set_insert(z, %s)" % s)
    if o == "zhas": return b("set_contains(z, %s)" % s)
    if o == "zlen": return "host::log(len(z));"
    if o == "wput": return opt("map_insert(w, %s, %d)" % (s, n))
    if o == "wget": return opt("map_get(w, %s)" % s)
    if o == "hash": return b("not (value_hash(%s) == value_hash(%s))" % (s, u))
    raise Exception(o)

def source(l, kmax):
    k, T = l["kind"], TYPES[l["kind"]]
    body = "\n  ".join(stmt(op, i + l["seed"]) for i, op in enumerate(l["hist"]))
    show = "for e in s { host::log(lab(e)) }; for e in t { host::log(lab(e)) }; for e in m { host::log(lab(e.0) * 100 + e.1) }; for e in n { host::log(lab(e.0) * 100 + e.1) }; host::log(len(z)); host::log(len(w))"
    out = PRE.get(k, "") + "fn lab(x: T) -> int { %s }\nfn key(x: int) -> T { %s }\n" % (KEYS[k], MAKE[k])
    out += "fn b2i(x: bool) -> int { if x { 1 } else { 0 } }\nfn add2(c: &mut set<T>, x: T, y: T) -> int { b2i(set_insert(c, x)) + b2i(set_insert(c, y)) }\n"
    out += "fn with(c: set<T>, x: T) -> int { let mut d = c; set_insert(d, x); len(d) }\n"
    out += "fn mput(c: &mut map<T, int>, x: T, v: int) { match map_insert(c, x, v) { Some(p) => host::log(p), None => host::log(-1) } }\n"
    out += "fn main() {\n  let mut s: set<T> = set {};\n  let mut t: set<T> = set {};\n  let mut m: map<T, int> = map {};\n  let mut n: map<T, int> = map {};\n  let mut z: set<set<T>> = set {};\n  let mut w: map<set<T>, int> = map {};\n  %s\n  %s\n}" % (body, show)
    import re
    return re.sub(r"\bT\b", T, out).replace("KMAX", str(kmax))

def run(check, lo, hi, steps, kmax):
    step, st = 3000, {"states": 0, "trans": 0, "runs": 0, "ops": 0, "kinds": {}, "ops_by": {}}
    for x in range(lo, hi + 1, step): chunk(check, x, min(hi, x + step - 1), steps, kmax, st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["runs"], "operations": st["ops"], "key_types": st["kinds"], "operations_by_name": st["ops_by"],
        "rule": "seeded histories of %d set and map operations over ten key types and up to %d labels (spec/Hash.tla), everything shown compared in the hir, mir and opt modes" % (steps, kmax)})

def chunk(check, lo, hi, steps, kmax, st):
    r = vlib.tlc("Hash", {"SeedLo": lo, "SeedHi": hi, "Steps": steps, "KMax": kmax}, invariants=["Laws"], properties=["Apart"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": source(l, kmax), "runs": [{"entry": "main", "mode": m, "args": []} for m in MODES]} for l in ls]
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        def bad(msg): check.violation("sets and maps %d: %s in\n%s" % (l["seed"], msg, job["src"]), {"src": job["src"], "seed": l["seed"], "want": l["seen"], "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("rejected or crashed: " + str(got)[:400]); continue
        for m, g in zip(MODES, got["runs"]):
            log = [int(e[1:]) for e in g["log"] if e[0] == "L"]
            if "ok" not in g: bad("mode %s: %s" % (m, str(g)[:200])); break
            msg = compare(l["seen"], log)
            if msg: bad("mode %s: %s" % (m, msg)); break
            st["runs"] += 1
        st["ops"] += len(l["hist"]); st["kinds"][l["kind"]] = st["kinds"].get(l["kind"], 0) + 1
        for op in l["hist"]: st["ops_by"][op["o"]] = st["ops_by"].get(op["o"], 0) + 1
        check.sample({"src": job["src"], "log": log if "runs" in got else None}, 2)

def compare(seen, log):
    """the log is what was shown; labels of one iteration come in any order"""
    i = 0
    for e in seen:
        if e["it"]:
            part = log[i:i + e["x"]]; i += e["x"]
            if sorted(part) != sorted(e["q"]): return "iteration shows %s, specified %s" % (part, e["q"])
        else:
            if i >= len(log) or log[i] != e["x"]: return "shows %s at %d, specified %s" % (log[i:i + 1], i, e["x"])
            i += 1
    return None if i == len(log) else "shows more than specified: %s" % log[i:]
