"""Replay of spec/Coll.tla: histories of array operations (C15)."""
import json
import vlib, render
MODES = ("hir", "mir", "opt")
TYPES = {"int": "int", "str": "string", "arr": "[int]", "own": "D", "pair": "(int, string)"}
KEYS = {"int": "x", "str": 'match x { "s0" => 0, "s1" => 1, "s2" => 2, "s3" => 3, "s4" => 4, "s5" => 5, _ => 99 }',
        "arr": "x[0] + x[1] - len(x) + 2 - x[1]", "own": "x.l", "pair": "x.0"}
PLACE = [None, "a", "b", "z[0]", "z[1]"]

def elem(kind, x):
    return {"int": "%d" % x, "str": '"s%d"' % x, "arr": "[%d, %d]" % (x, x + 1), "own": "mk(%d)" % x, "pair": '(%d, "s%d")' % (x, x)}[kind]
def value(kind, x):
    return {"int": x, "str": "s%d" % x, "arr": {"arr": [x, x + 1]}, "own": x, "pair": {"tup": [x, "s%d" % x]}}[kind]
def num(n): return str(n) if n >= 0 else "(-%d)" % -n

def opt(call): return "match %s { Some(x) => host::log(key(x)), None => host::log(-1) };" % call
def stmt(kind, op, t):
    o, p, q, e = op["o"], PLACE[op["i"]], PLACE[op["j"]], elem(kind, op["x"])
    # an index or element that is only known when it runs
    n = num(op["n"]) if t % 3 else "host::src(%s)" % num(op["n"])
    T = TYPES[kind]
    if o == "app": return "array_append(%s, %s);" % (p, e)
    if o == "pre": return "array_prepend(%s, %s);" % (p, e)
    if o in ("popb", "popf", "peekb", "peekf"):
        return opt("array_%s(%s)" % ({"popb": "pop_back", "popf": "pop_front", "peekb": "peek_back", "peekf": "peek_front"}[o], p))
    if o == "get": return "host::log(key(%s[%s]));" % (p, n)
    if o == "set": return "%s[%s] = %s;" % (p, n, e)
    if o == "len": return "host::log(len(%s));" % p
    if o == "slice": return "%s = %s(%s, %s, %s);" % (p, "array_slice" if t % 2 else "slice", q, num(op["n"]), num(op["m"]))
    if o == "cat": return "%s = concat(%s, %s);" % (p, p, q)
    if o == "copy": return "%s = %s;" % (p, q) if t % 2 else "{ let c = %s; %s = c };" % (q, p)
    if o == "rev": return "reverse(%s);" % p
    if o == "revd": return "%s = reversed(%s);" % (p, q)
    if o == "sort": return "sort(%s);" % p if t % 2 else "%s = sorted(%s);" % (p, p)
    if o == "has": return "host::log(if contains(%s, %s) { 1 } else { 0 });" % (p, e)
    if o == "eq": return "host::log(if %s == %s { 1 } else { 0 });" % (p, q)
    if o == "iter": return "for x in %s { host::log(key(x)) };" % p
    if o == "grow": return "for x in %s { array_append(%s, x) };" % (p, p)
    if o == "clr": return "%s = [];" % p
    if o == "lit": return "%s = [%s, %s, %s];" % (p, e, elem(kind, 0), e)
    if o == "byref": return "push2(%s, %s, %s);" % (p, e, e) if t % 2 else "{ push2(%s, %s, %s) };" % (p, e, e)
    if o == "byval": return "byval(%s, %s);" % (p, e)
    if o == "ret": return "%s = with(%s, %s);" % (p, q, e)
    if o == "swap": return "{ let c: [%s] = %s; %s = %s; %s = c };" % (T, p, p, q, q)
    if o == "rot": return "match array_pop_front(z) { Some(r) => array_append(z, r), None => () };"
    if o == "cap": return "{ let c = |u| { let w: int = u; len(%s) + w }; array_append(%s, %s); host::log(c(0)) };" % (p, p, e)
    if o == "exch": return "{ let c: %s = %s[%s]; %s[%s] = %s[%s]; %s[%s] = c };" % (T, p, n, p, n, p, num(op["m"]), p, num(op["m"]))
    if o == "opt": return "{ let c: %s = %s[%s]; %s[%s] = %s; host::log(key(c)) };" % (T, p, n, p, n, e)
    raise Exception(o)

def source(l):
    kind, T = l["kind"], TYPES[l["kind"]]
    out = [render.PRE_D if kind == "own" else ""]
    out.append("fn key(x: %s) -> int { %s }" % (T, KEYS[kind]))
    out.append("fn push2(c: &mut [%s], x: %s, y: %s) { array_append(c, x); array_prepend(c, y) }" % (T, T, T))
    out.append("fn byval(c: [%s], x: %s) { let mut d = c; array_append(d, x); match array_pop_front(d) { Some(y) => { host::log(len(d)); host::log(key(y)) }, None => () } }" % (T, T))
    out.append("fn with(c: [%s], x: %s) -> [%s] { let mut d = c; array_append(d, x); host::log(len(c)); d }" % (T, T, T))
    body = "\n  ".join(stmt(kind, op, t + l["seed"]) for t, op in enumerate(l["hist"]))
    out.append("fn main() {\n  let mut a: [%s] = [];\n  let mut b: [%s] = [];\n  let mut z: [[%s]] = [[], []];\n  %s\n  (a, b, z)\n}" % (T, T, T, body))
    return "\n".join(out)

def balance(log):
    """Every created or cloned instance is dropped exactly once."""
    alive = {}
    for e in log:
        if e[0] == "N": alive[e.split(".")[1]] = 1
        elif e[0] == "C":
            if alive.get(e.split(".")[1]) != 1: return "clone of a dead instance: " + e
            alive[e.split(".")[2]] = 1
        elif e[0] == "D":
            i = e.split(".")[1]
            if alive.get(i) != 1: return "drop of a dead instance: " + e
            alive[i] = 0
    return None, sum(alive.values())

def strip(kind, v):
    if kind == "own":
        if isinstance(v, dict) and "tup" in v and len(v["tup"]) == 2 and all(type(x) is int for x in v["tup"]): return v["tup"][1]
        if isinstance(v, dict) and "arr" in v: return {"arr": [strip(kind, x) for x in v["arr"]]}
        if isinstance(v, dict) and "tup" in v: return {"tup": [strip(kind, x) for x in v["tup"]]}
    return v

def run(check, lo, hi, steps):
    step, st = 4000, {"states": 0, "trans": 0, "runs": 0, "fails": 0, "ops": 0}
    for x in range(lo, hi + 1, step): chunk(check, x, min(hi, x + step - 1), steps, st)
    check.coverage.update({"states": check.coverage.get("states", 0) + st["states"], "transitions": check.coverage.get("transitions", 0) + st["trans"],
        "traces_validated_against_impl": check.coverage.get("traces_validated_against_impl", 0) + st["runs"], "array_operations": st["ops"], "failing_histories": st["fails"],
        "rule": "seeded histories of %d array operations over four places and five element types (spec/Coll.tla), shown values, failure and final arrays compared in the hir, mir and opt modes" % steps})

def chunk(check, lo, hi, steps, st):
    r = vlib.tlc("Coll", {"SeedLo": lo, "SeedHi": hi, "Steps": steps}, invariants=["Laws"], properties=["FailKeeps"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": source(l), "runs": [{"entry": "main", "mode": m, "args": []} for m in MODES]} for l in ls]
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        kind = l["kind"]
        def bad(msg): check.violation("arrays %d: %s in\n%s" % (l["seed"], msg, job["src"]), {"src": job["src"], "seed": l["seed"], "want": [l["v"], l["seen"], l["fail"]], "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("rejected or crashed: " + str(got)[:400]); continue
        arr = lambda q: {"arr": [value(kind, x) for x in q]}
        want = {"tup": [arr(l["v"][0]), arr(l["v"][1]), {"arr": [arr(l["v"][2]), arr(l["v"][3])]}]}
        for m, g in zip(MODES, got["runs"]):
            seen = [int(e[1:]) for e in g["log"] if e[0] == "L"]
            if seen != l["seen"]: bad("mode %s shows %s, specified %s" % (m, seen, l["seen"])); break
            if l["fail"]:
                if l["fail"] not in str(g.get("fail", "")): bad("mode %s: %s, specified failure %s" % (m, str(g)[:200], l["fail"])); break
            elif "ok" not in g or strip(kind, g["ok"]) != want: bad("mode %s ends with %s, specified %s" % (m, str(g)[:400], json.dumps(want))); break
            if kind == "own":
                b = balance(g["log"])
                if isinstance(b, str): bad("mode %s: %s" % (m, b)); break
                live = 0 if l["fail"] else sum(len(q) for q in l["v"])
                # the returned arrays are released by the host without running guest code
                if b[1] != live: bad("mode %s leaves %d instances undropped, %d are returned" % (m, b[1], live)); break
            st["runs"] += 1
        st["fails"] += bool(l["fail"]); st["ops"] += len(l["hist"])
        check.sample({"src": job["src"], "seen": l["seen"]}, 2)
