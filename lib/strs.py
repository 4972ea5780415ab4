"""Replay of spec/Str.tla: histories of string operations (C17)."""
import vlib
MODES = ("hir", "mir", "opt")
V = [None, "a", "b", "c"]
def text(q): return "".join(chr(c) for c in q)
def lit(q):
    out = ""
    for c in q: out += {9: "\\t", 10: "\\n", 13: "\\r"}.get(c, chr(c))
    return '"%s"' % out
def num(n): return str(n) if n >= 0 else "(-%d)" % -n
def stmt(op, t):
    o, a, b, l = op["o"], V[op["i"]], V[op["j"]], lit(op["l"])
    n, m = num(op["n"]), num(op["m"])
    show = lambda e: "array_append(out, %s);" % e
    flag = lambda e: show('if %s { "=1" } else { "=0" }' % e)
    rn = lambda e: '{ let x: int = %s; array_append(out, f"={x}") };' % e
    if o == "lit": return "%s = %s;" % (a, l)
    if o == "push": return "string_push_str(%s, %s);" % (a, b)
    if o == "pushl": return "string_push_str(%s, %s);" % (a, l)
    if o == "cat": return "%s = %s(%s, %s);" % (a, "concat" if t % 2 else "string_concat", a, b)
    if o == "fmt": return '%s = f"{%s}%s{%s}";' % (a, a, l[1:-1], b)
    if o == "slice": return "%s = %s(%s, %s, %s);" % (a, "slice" if t % 2 else "string_slice", b, n, m)
    if o == "repl": return "%s = string_replace(%s, %s, %s);" % (a, a, l, b) + (" %s = string_slice(%s, 0, 3);" % (a, a) if op["cut"] else "")
    if o == "up": return "%s = uppercase(%s);" % (a, b)
    if o == "low": return "%s = lowercase(%s);" % (a, b)
    if o == "trim": return "%s = string_trim(%s);" % (a, b)
    if o == "has": return flag("contains_substring(%s, %s)" % (a, l))
    if o == "starts": return flag("string_starts_with(%s, %s)" % (a, l))
    if o == "ends": return flag("string_ends_with(%s, %s)" % (a, l))
    if o == "len": return rn("%s(%s)" % ("len" if t % 2 else "string_len", a))
    if o == "blen": return rn("string_byte_len(%s)" % a)
    if o == "empty": return flag("string_is_empty(%s)" % a)
    if o == "eq": return flag("%s == %s" % (a, b)) + " " + flag("%s == %s" % (a, l))
    if o == "cmp": return show('match cmp(%s, %s) { Less => "=-1", Equal => "=0", Greater => "=1" }' % (a, b))
    if o == "iter": return "for g in %s { array_append(out, g) };" % a
    if o == "split": return "for g in split(%s, %s) { array_append(out, g) };" % (a, l) if t % 2 else "{ let it = split_iterator(%s, %s); for g in it { array_append(out, g) } };" % (a, l)
    if o == "copy": return "%s = %s;" % (a, b) if t % 2 else "{ let d = %s; %s = d };" % (b, a)
    if o == "rev": return '{ let mut r = ""; for g in %s { r = string_concat(g, r) }; %s = r };' % (b, a)
    if o == "join": return "%s = join([%s, %s], %s);" % (a, a, b, l)
    if o == "num": return "%s = %s; %s" % (b, l, show('match parse_int(%s) { Some(x) => f"={x}", None => "=-777" }' % b))
    if o == "byref": return "push(%s, %s);" % (a, l)
    if o == "byval": return show("pushed(%s, %s)" % (a, l))
    if o == "cap": return "{ let f = |u| { let w: int = u; %s }; string_push_str(%s, %s); %s };" % (a, a, l, show("f(0)")[:-1])
    if o == "build": return "for i in 0..3 { string_push_str(%s, %s) };" % (a, l)
    if o == "self": return "string_push_str(%s, %s);" % (a, a) if t % 2 else "{ let d = %s; string_push_str(%s, d) };" % (a, a)
    if o == "clr": return '%s = "";' % a
    raise Exception(o)
PRE = """fn push(s: &mut string, l: string) { string_push_str(s, l) }
fn pushed(s: string, l: string) -> string { let mut d = s; string_push_str(d, l); d }
"""
def source(l):
    body = "\n  ".join(stmt(op, t + l["seed"]) for t, op in enumerate(l["hist"]))
    return PRE + 'fn main() {\n  let mut out: [string] = [];\n  let mut a = "";\n  let mut b = "";\n  let mut c = "";\n  %s\n  array_append(out, a); array_append(out, b); array_append(out, c);\n  out\n}' % body

def run(check, lo, hi, steps):
    step, st = 4000, {"states": 0, "trans": 0, "runs": 0, "ops": 0, "fails": 0, "by": {}}
    for x in range(lo, hi + 1, step): chunk(check, x, min(hi, x + step - 1), steps, st)
    check.coverage.update({"states": st["states"], "transitions": st["trans"], "traces_validated_against_impl": st["runs"], "operations": st["ops"], "failing_histories": st["fails"], "operations_by_name": st["by"],
        "rule": "seeded histories of %d string operations over three strings (spec/Str.tla), everything shown and the final strings compared in the hir, mir and opt modes" % steps})

def chunk(check, lo, hi, steps, st):
    r = vlib.tlc("Str", {"SeedLo": lo, "SeedHi": hi, "Steps": steps}, invariants=["Laws"], timeout=800)
    st["states"] += r.distinct; st["trans"] += r.generated
    ls = sorted(r.lines, key=lambda l: l["seed"])
    jobs = [{"id": 0, "src": source(l), "runs": [{"entry": "main", "mode": m, "args": []} for m in MODES]} for l in ls]
    for l, job, got in zip(ls, jobs, vlib.run_jobs(jobs, timeout=30)):
        want = [text(e["s"]) if e["t"] else "=%d" % e["n"] for e in l["seen"]] + [text(q) for q in l["v"]]
        def bad(msg): check.violation("strings %d: %s in\n%s" % (l["seed"], msg, job["src"]), {"src": job["src"], "seed": l["seed"], "want": want, "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("rejected or crashed: " + str(got)[:400]); continue
        for m, g in zip(MODES, got["runs"]):
            if l["fail"]:
                if l["fail"] not in str(g.get("fail", "")): bad("mode %s: %s, specified failure %s" % (m, str(g)[:200], l["fail"])); break
            elif g.get("ok", {}) != {"arr": want}:
                have = g.get("ok", {}).get("arr") if isinstance(g.get("ok"), dict) else None
                at = next((i for i, (x, y) in enumerate(zip(have or [], want)) if x != y), None)
                bad("mode %s: result %s is %r, specified %r; %s" % (m, at, have[at] if at is not None else have, want[at] if at is not None else want, str(g)[:150] if have is None else "")); break
            st["runs"] += 1
        st["ops"] += len(l["hist"]); st["fails"] += bool(l["fail"])
        for op in l["hist"]: st["by"][op["o"]] = st["by"].get(op["o"], 0) + 1
        check.sample({"src": job["src"], "want": want}, 2)
