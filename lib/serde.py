"""Replay of spec/Serde.tla: serialization through DataValue, JSON and data text (C18)."""
import vlib
DECLS = ("enum E { A, B(int), C { x: int, y: string }, D(int, string), F(()), G({ x: int }), H([float]) }\n"
         "enum E2 { A(int), B, C { y: string, x: int }, D(int), G { x: int } }\n"
         "struct S { b: int, a: string }\nstruct T(int, bool)\nstruct One(S)\n"
         "fn big() -> float { let b: float = from_int(9223372036854775807); b }\n")
# name -> (source, JSON, data text)
CH = {"quote": ('\\"', '\\"', '\\"'), "back": ("\\\\",) * 3, "nl": ("\\n",) * 3, "cr": ("\\r",) * 3, "tab": ("\\t",) * 3,
      "bs": ("\\u{8}", "\\b", "\\u{8}"), "ff": ("\\u{c}", "\\f", "\\u{c}"), "c1": ("\\u{1}", "\\u0001", "\\u{1}"), "del": ("\\u{7f}", "\\u007f", "\\u{7f}"),
      "nel": ("\\u{85}", "\\u0085", "\\u{85}"), "eacute": ("é",) * 3, "smile": ("😀",) * 3, "slash": ("/",) * 3, "brace": ("{",) * 3}
def chars(q, i): return "".join(CH[c][i] if c in CH else c for c in q)
def src(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r")

def ty(t):
    k = t[0]
    if k in ("int", "bool", "float"): return k
    if k == "str": return "string"
    if k == "unit": return "()"
    if k == "arr": return "[%s]" % ty(t[1])
    if k == "set": return "HashSet<%s>" % ty(t[1])
    if k == "map": return "HashMap<%s, %s>" % (ty(t[1]), ty(t[2]))
    if k == "enum": return t[1] if t[1] != "Option" else "Option<%s>" % ty(t[2][1][3][0])
    if t[1]: return t[1]
    if k == "tup": return "(%s,)" % ty(t[2][0]) if len(t[2]) == 1 else "(%s)" % ", ".join(map(ty, t[2]))
    return "{ %s }" % ", ".join("%s: %s" % x for x in zip(t[2], map(ty, t[3])))
def fields(ns, ts, vs): return "{ %s }" % ", ".join("%s: %s" % (n, lit(t, v)) for n, t, v in zip(ns, ts, vs))
def lit(t, v):
    k = t[0]
    if k == "unit": return "()"
    if k == "bool": return v[1]
    if k == "int": return "(-9223372036854775807 - 1)" if v[1] == "-9223372036854775808" else "(%s)" % v[1]
    if k == "float":
        b = {"9223372036854776000": "big()", "-9223372036854776000": "(-big())"}
        return b.get(v[1]) or "(%s)" % (v[1] if "." in v[1] else v[1] + ".0")
    if k == "str": return '"%s"' % chars(v[1], 0)
    if k == "arr": return "[%s]" % ", ".join(lit(t[1], x) for x in v[1])
    if k == "set": return "set { %s }" % ", ".join(lit(t[1], x) for x in v[1])
    if k == "map": return "map { %s }" % ", ".join("%s => %s" % (lit(t[1], a), lit(t[2], b)) for a, b in v[1])
    if k == "tup": return t[1] + ("(%s%s)" % (", ".join(lit(a, b) for a, b in zip(t[2], v[1])), "," if len(t[2]) == 1 and not t[1] else ""))
    if k == "rec": return (t[1] + " " if t[1] else "") + fields(t[2], t[3], v[1])
    c = next(c for c in t[2] if c[0] == v[1])
    name = ("" if t[1] == "Option" else t[1] + "::") + c[0]
    if c[1] == "unit": return name
    if c[1] == "tup": return "%s(%s)" % (name, ", ".join(lit(a, b) for a, b in zip(c[3], v[2])))
    return name + " " + fields(c[2], c[3], v[2])
def text(toks, i, sep=" "): return sep.join('"%s"' % chars(t[1], i) if t[0] == "s" else t[1] for t in toks)
def ordered(v):
    """no set or map whose order could matter"""
    if v[0] in ("set", "map"): return len(v[1]) < 2 and all(ordered(x) for e in v[1] for x in ([e] if v[0] == "set" else e))
    if v[0] in ("arr", "tup", "rec"): return all(ordered(x) for x in v[1])
    return all(ordered(x) for x in v[2]) if v[0] == "var" else True
def owns(t):
    """an aggregate with a part that owns storage: decoding it is not to fail in MIR (F4)"""
    k = t[0]
    if k in ("arr", "set"): return owns(t[1])
    if k == "map": return True
    parts = t[2] if k == "tup" else t[3] if k == "rec" else [x for c in t[2] for x in c[3]] if k == "enum" else []
    return any(heap(x) or owns(x) for x in parts)
def heap(t): return t[0] in ("str", "arr", "set", "map") or owns(t)
def squash(s):
    """tokens of a text, without the blanks between them"""
    out, i, q = "", 0, False
    while i < len(s):
        if q and s[i] == "\\": out += s[i:i + 2]; i += 2; continue
        if s[i] == '"': q = not q
        if q or s[i] != " ": out += s[i]
        i += 1
    return out

def run(check, lo, hi):
    r = vlib.tlc("Serde", {"SeedLo": lo, "SeedHi": hi}, invariants=["RoundTrip"], timeout=700)
    jobs, plan = [], []
    for l in sorted(r.lines, key=lambda l: (l["seed"], l["how"], str(l["j"]))):
        t, v, u, s = l["t"], l["v"], l["u"], DECLS
        want = []
        def dec(name, of, exp):
            body = "" if exp[0] == "fail" else "let e: %s = %s; " % (ty(u), lit(u, exp))
            out = "true" if exp[0] == "fail" else "w == e"
            # what a set or map is decoded to as an array depends on its order
            if name in ("data", "json", "text") and t != u and not ordered(v): return ""
            want.append((name, exp))
            return "fn %s() -> bool { %slet w: %s = %s; %s }\n" % (name, body, ty(u), of, out)
        if l["how"] == "intact":
            s += "fn value() -> %s { %s }\n" % (ty(t), lit(t, v))
            for c in ("json", "data_text"):
                s += "fn enc_%s() -> string { %s_encode(value()) }\n" % (c, c)
                want.append(("enc_" + c, None))
            s += dec("data", "deserialize(serialize(value()))", l["d"]) + dec("json", "json_decode(json_encode(value()))", l["dj"]) + dec("text", "data_text_decode(data_text_encode(value()))", l["dx"])
        s += dec("of_json", "json_decode(%s)" % src(text(l["j"], 1)), l["dj"]) + dec("of_text", "data_text_decode(%s)" % src(text(l["x"], 2)), l["dx"])
        plan.append((l, s, want))
        jobs.append({"id": 0, "src": s, "runs": [{"entry": n, "mode": "hir" if e and e[0] == "fail" and owns(u) else ("opt", "hir", "mir")[(l["seed"] + i) % 3], "args": []} for i, (n, e) in enumerate(want)]})
    n, kinds = 0, {}
    for (l, s, want), got in zip(plan, vlib.run_jobs(jobs, timeout=60)):
        def bad(msg): check.violation("case %d: %s in\n%s" % (l["seed"], msg, s[len(DECLS):]), {"seed": l["seed"], "src": s, "case": l, "result": got})
        if "timeout" in got: check.coverage["undecided"] = check.coverage.get("undecided", 0) + 1; continue
        if "runs" not in got: bad("not accepted: " + str(got)[:400]); continue
        for (name, exp), x in zip(want, got["runs"]):
            if exp is None:
                w = squash(text(l["j"], 1, "") if name == "enc_json" else text(l["x"], 2, ""))
                if not isinstance(x.get("ok"), str): bad("%s fails: %s" % (name, str(x)[:200])); break
                if ordered(l["v"]) and squash(x["ok"]) != w: bad("%s gives %s, specified %s" % (name, x["ok"], w)); break
            elif exp[0] == "fail":
                if "fail" not in x: bad("%s is specified to fail to decode at %s, got %s" % (name, ty(l["u"]), str(x)[:200])); break
            elif x.get("ok") is not True: bad("%s is specified to decode at %s to %s, got %s" % (name, ty(l["u"]), lit(l["u"], exp), str(x)[:200])); break
            kinds[(exp or ["encode"])[0]] = kinds.get((exp or ["encode"])[0], 0) + 1
        else:
            n += 1
            check.sample({"src": s[len(DECLS):]}, 2)
    check.coverage.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": n, "outcomes": kinds,
        "rule": "seeded types, values and token edits; encoding compared token by token, decoding at the same or another type compared with the specified value or failure"})
