"""Replay of spec/NumMC.tla: operator tables, folded literals and generated expressions (C14)."""
import vlib
from vlib import log
MODES = ("hir", "mir", "opt")
INFIX = {"add": "+", "sub": "-", "mul": "*", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}
FAIL = {"div": "Division by zero", "rem": "Remainder by zero"}
BOOLS = {"lt", "le", "gt", "ge", "eq", "ne", "test_bit"}
UN = {"neg", "abs", "signum", "bit_not", "count_ones", "count_zeros"}
FN = ("fn add_(a: int, b: int) -> int { a + b }\nfn sub_(a: int, b: int) -> int { a - b }\n"
      "fn mul_(a: int, b: int) -> int { a * b }\nfn max_(a: int, b: int) -> int { max(a, b) }\nfn app(f, a: int, b: int) -> int { f(a, b) }\n")

def word(w):
    n = sum(b << (8 * i) for i, b in enumerate(w))
    return n - (1 << 64) if n >> 63 else n
def lit(n):
    if n >= 0: return str(n)
    if n == -(1 << 63): return "(-9223372036854775807 - 1)"
    return "(-%d)" % -n
def call(op, a, b):
    if op in INFIX: return "(%s %s %s)" % (a, INFIX[op], b)
    if op == "neg": return "(-(%s))" % a
    if op in UN: return "%s(%s)" % (op, a)
    if op == "bit": return "(bit(%s): int)" % b
    return "%s(%s, %s)" % (op, a, b)
def ret(op): return "bool" if op in BOOLS else "Ordering" if op == "cmp" else "int"
def matches(want, got):
    k = want["k"]
    if k == "e": return str(got.get("fail", "")).startswith(FAIL[want["e"]])
    if "ok" not in got: return False
    v = got["ok"]
    if k == "w": return type(v) is int and v == word(want["w"])
    if k == "b": return v is want["b"]
    return isinstance(v, dict) and v.get("tag") == want["t"]
def show(want):
    return want["e"] if want["k"] == "e" else word(want["w"]) if want["k"] == "w" else want.get("b", want.get("t"))

def expr(e):
    k, c = e["k"], e.get("c", [])
    if k == "lit": return lit(word(e["o"]))
    if k == "blit": return "true" if e["o"] else "false"
    if k == "var": return "v%d" % e["o"]
    if k == "bin": return call(e["o"], expr(c[0]), expr(c[1]))
    if k == "app": return "app(%s_, %s, %s)" % (e["o"], expr(c[0]), expr(c[1]))
    if k == "un": return call(e["o"], expr(c[0]), None)
    if k in ("shift", "bit"): return "%s(%s, %s)" % (e["o"], expr(c[0]), lit(e["n"]))
    if k == "clamp": return "clamp(%s, %s, %s)" % tuple(map(expr, c))
    if k == "if": return "(if %s { %s } else { %s })" % tuple(map(expr, c))
    if k == "let": return "{ let v%d = %s; %s }" % (e["o"], expr(c[0]), expr(c[1]))
    if k == "not": return "(not %s)" % expr(c[0])
    if k in ("and", "or"): return "(%s %s %s)" % (expr(c[0]), k, expr(c[1]))
    return "(%s %s %s)" % (expr(c[0]), "==" if k == "beq" else "!=", expr(c[1]))

def is_bool(e):
    k = e["k"]
    if k in ("blit", "not", "and", "or", "beq", "bne"): return True
    if k in ("bin", "bit"): return e["o"] in BOOLS
    if k == "if": return is_bool(e["c"][1])
    if k == "let": return is_bool(e["c"][1])
    return False

def run(check, lo, hi, nrand, fold_stride, salt):
    r = vlib.tlc("NumMC", {"Salt": salt, "NRand": nrand, "LawStride": 7, "SeedLo": lo, "SeedHi": hi}, invariants=["LawsHold"], timeout=600)
    table, exprs = {}, []
    for l in r.lines:
        if "op" in l: table.setdefault(l["op"], []).append(l)
        else: exprs.append(l)
    jobs, expect = [], []
    for op in sorted(table):
        runs, want = [], []
        for row in sorted(table[op], key=lambda x: word(x["a"])):
            a = word(row["a"])
            for i, w in enumerate(row["r"]):
                args = [a] if op in UN else [a, word(row["b"][i])]
                for m in MODES:
                    runs.append({"entry": "f", "mode": m, "args": args}); want.append((op, args, w))
        sig = "fn f(a: int) -> %s { %s }" if op in UN else "fn f(a: int, b: int) -> %s { %s }"
        src = sig % (ret(op), call(op, "a", "b"))
        step = 3000
        for k in range(0, len(runs), step):
            jobs.append({"id": len(jobs), "src": src, "runs": runs[k:k + step]}); expect.append(want[k:k + step])
    # literal operands, folded by the optimizer
    cases, n = [], 0
    for op in sorted(table):
        for row in table[op]:
            for i, w in enumerate(row["r"]):
                n += 1
                if n % fold_stride == 0: cases.append((op, word(row["a"]), None if op in UN else word(row["b"][i]), w))
    for k in range(0, len(cases), 60):
        src, runs, want = [], [], []
        for j, (op, a, b, w) in enumerate(cases[k:k + 60]):
            src.append("fn k%d() -> %s { %s }" % (j, ret(op), call(op, lit(a), None if b is None else lit(b))))
            for m in ("hir", "opt"):
                runs.append({"entry": "k%d" % j, "mode": m, "args": []}); want.append((op, [a, b], w))
        jobs.append({"id": len(jobs), "src": "\n".join(src), "runs": runs}); expect.append(want)
    exprs.sort(key=lambda l: l["seed"])
    for k in range(0, len(exprs), 8):
        src, runs, want = [FN], [], []
        for l in exprs[k:k + 8]:
            src.append("fn e%d(v1: int, v2: int, v3: int) -> %s { %s }" % (l["seed"], "bool" if is_bool(l["e"]) else "int", expr(l["e"])))
            for args, w in zip(l["args"], l["r"]):
                for m in MODES:
                    runs.append({"entry": "e%d" % l["seed"], "mode": m, "args": [word(x) for x in args]}); want.append((src[-1], [word(x) for x in args], w))
        jobs.append({"id": len(jobs), "src": "\n".join(src), "runs": runs}); expect.append(want)
    res = vlib.run_jobs(jobs, timeout=120)
    ok = 0
    for job, want, r2 in zip(jobs, expect, res):
        if "runs" not in r2:
            check.violation("%s on %s" % (str(r2)[:300], job["src"][:300]), {"src": job["src"], "result": str(r2)[:2000]}); continue
        for run_, got, (what, args, w) in zip(job["runs"], r2["runs"], want):
            if matches(w, got): ok += 1
            else:
                check.violation("%s on %s in mode %s gives %s, specified %s" % (what, args, run_["mode"], {k: v for k, v in got.items() if k != "log"}, show(w)),
                                {"src": job["src"], "run": run_, "specified": show(w), "observed": got})
    check.sample({"expr": expr(exprs[0]["e"]), "args": [word(x) for x in exprs[0]["args"][0]], "result": show(exprs[0]["r"][0])})
    check.coverage.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": ok, "table_operators": len(table),
        "literal_programs": len(cases), "expressions": len(exprs),
        "rule": "every operator on every pair of %d operands, literal forms, and seeded expressions on 4 argument triples, in the hir, mir and opt modes; "
                "TLC invariant LawsHold (division and bit laws of the word model)" % (len(table["neg"]))})
