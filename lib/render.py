"""Concrete syntax of core programs (the abstract syntax of spec/Core.tla)."""
PRE = """struct P { x: int, y: int }
struct Q { p: P, q: (int, int) }
enum E { A(int), B(int, int), C }
"""
PRE_D = """struct D { l: int, id: int }
impl Value for D {
  fn eq(left: D, right: D) -> bool { left.l == right.l }
  fn to_string(value: D) -> string { to_string(value.l) }
  fn hash(value: D, state: &mut hasher) { hash(value.l, state) }
  fn clone(source: D) -> D { D { l: source.l, id: host::cloned(source.l, source.id) } }
  fn drop(target: &mut D) { host::dropped(target.l, target.id) }
}
fn mk(l: int) -> D { D { l: l, id: host::fresh(l) } }
"""
TY = {"I": "int", "B": "bool", "S": "string", "T": "(int, int)", "A": "[int]", "AT": "[(int, int)]", "AA": "[[int]]",
      "O": "Option<int>", "V": "E", "P": "P", "Q": "Q", "D": "D", "DP": "(D, D)", "DA": "[D]", "U": "()"}
CALLS = {"len": "len", "append": "array_append", "prepend": "array_prepend", "popb": "array_pop_back",
         "popf": "array_pop_front", "idiv": "idiv", "rem": "rem", "mod": "mod", "mk": "mk", "log": "host::log",
         "tap": "host::tap", "tapb": "host::tapb", "src": "host::src", "boom": "host::boom", "panic": "panic"}

class Render:
    def __init__(self, salt=0, annotate=1):
        self.salt, self.n, self.annotate = salt, 0, annotate
    def coin(self, k):
        self.n += 1
        return (self.salt * 31 + self.n * 17) % k == 0
    def lit_int(self, n): return str(n) if n >= 0 else "(-%d)" % -n
    def e(self, e):
        k, c = e["k"], e["c"]
        E = self.e
        if k == "int": return self.lit_int(e["n"])
        if k == "bool": return "true" if e["n"] == 1 else "false"
        if k == "unit": return "()"
        if k == "str": return '"%s"' % e["s"]
        if k in ("var", "fnref"): return e["s"]
        if k == "tupix": return "%s.%d" % (E(c[0]), e["n"])
        if k == "fld": return "%s.%s" % (E(c[0]), e["s"])
        if k == "idx": return "%s[%s]" % (E(c[0]), E(c[1]))
        if k == "bin": return "(%s %s %s)" % (E(c[0]), e["s"], E(c[1]))
        if k in ("and", "or"): return "(%s %s %s)" % (E(c[0]), k, E(c[1]))
        if k == "not": return "(not %s)" % E(c[0])
        if k == "neg": return "(-(%s))" % E(c[0])
        if k == "tuple": return "(%s)" % ", ".join(map(E, c))
        if k == "array": return "[%s]" % ", ".join(map(E, c))
        if k == "struct":
            f = {"P": ("x", "y"), "Q": ("p", "q")}[e["s"]]
            return "%s { %s }" % (e["s"], ", ".join("%s: %s" % (a, E(b)) for a, b in zip(f, c)))
        if k == "ctor": return e["s"] + ("(%s)" % ", ".join(map(E, c)) if c else "")
        if k == "panic": return 'panic("p")'
        if k in CALLS: return "%s(%s)" % (CALLS[k], ", ".join(map(E, c)))
        if k == "call": return "%s(%s)" % (e["s"], ", ".join(map(E, c)))
        if k == "callf": return "%s(%s)" % (E(c[0]), ", ".join(map(E, c[1:])))
        if k == "fstr":
            return 'f"' + "".join(x["s"] if x["k"] == "str" else "{%s}" % self.paren(E(x)) for x in c) + '"' \
                if all(self.simple(x) for x in c) else self.concat(c)
        if k == "block": return self.block(e)
        if k == "if":
            s = "if %s %s" % (E(c[0]), self.block(c[1]))
            return "(%s else %s)" % (s, self.block(c[2])) if len(c) == 3 else s
        if k == "match":
            return "(match %s { %s })" % (E(c[0]), ", ".join(self.arm(a) for a in c[1:]))
        if k == "loop": return "%sloop %s" % (self.label(e["s"]), self.block(c[0]))
        if k == "for":
            return "%sfor %s in %s %s" % (self.label(e["s"]), e["t"], self.iter(c[0]), self.block(c[1]))
        if k == "break": return "break" + (" '" + e["s"] if e["s"] else "") + (" " + E(c[0]) if c else "")
        if k == "continue": return "continue" + (" '" + e["s"] if e["s"] else "")
        if k == "return": return "return " + (E(c[0]) if c else "()")
        if k == "let":
            ann = ""
            if self.annotate and e["t"] in TY and e["t"] != "?" and self.coin(4): ann = ": " + TY[e["t"]]
            return "let %s%s%s = %s" % ("mut " if e["n"] else "", e["s"], ann, E(c[0]))
        if k == "set": return "%s = %s" % (E(c[0]), E(c[1]))
        if k == "opset": return "%s %s= %s" % (E(c[0]), e["s"], E(c[1]))
        if k == "lam" and not (c[-1]["k"] == "bin" and c[-1]["c"][0]["k"] == "var" and c[-1]["c"][0]["s"] == c[0]["s"]):
            # parameters of lambdas carry no annotation: a use at the intended type
            return "(|%s| { let ty_: int = %s; %s })" % (c[0]["s"], c[0]["s"], E(c[-1]))
        if k == "lam": return "(|%s| %s)" % (", ".join(p["s"] for p in c[:-1]), E(c[-1]))
        raise Exception("render " + k)
    def simple(self, x): return x["k"] in ("str", "var")
    def concat(self, c):
        # to_string(x) parts joined left to right
        parts = [self.e(x) if x["t"] == "S" else "to_string(%s)" % self.e(x) for x in c]
        r = parts[0]
        for p in parts[1:]: r = "string_concat(%s, %s)" % (r, p)
        return r
    def paren(self, s): return s
    def label(self, s): return "'%s: " % s if s else ""
    def iter(self, e):
        if e["k"] == "each": return self.e(e["c"][0])
        return "%s..%s%s" % (self.rb(e["c"][0]), "=" if e["n"] else "", self.rb(e["c"][1]))
    def rb(self, e): return self.e(e)
    def arm(self, a):
        p, b = a["c"]
        if p["s"] == "_": pat = "_"
        elif p["s"] == "int": pat = str(p["n"])
        elif p["s"] == "bool": pat = "true" if p["n"] else "false"
        else: pat = p["s"] + ("(%s)" % ", ".join(x["s"] for x in p["c"]) if p["c"] else "")
        return "%s => %s" % (pat, self.e(b))
    def block(self, e):
        if e["k"] != "block": return "{ %s }" % self.e(e)
        c = e["c"]
        if not c: return "{ }"
        s = "; ".join(self.e(x) for x in c)
        return "{ %s%s }" % (s, "" if e["n"] == 1 else ";")
    def fun(self, f, pub=False):
        if f["g"] == 1:
            return "%sfn %s(%s) %s" % ("pub " if pub else "", f["n"], ", ".join(p["n"] for p in f["ps"]), self.block(f["b"]))
        ps = []
        for p in f["ps"]:
            if p["t"] == "F": ps.append(p["n"])
            elif p["m"] == 1: ps.append(p["n"] + (": &mut " + TY[p["t"]]))
            else: ps.append("%s: %s" % (p["n"], TY[p["t"]]))
        return "%sfn %s(%s) -> %s %s" % ("pub " if pub else "", f["n"], ", ".join(ps), TY[f["rt"]], self.block(f["b"]))

def uses_d(o):
    if isinstance(o, dict): return o.get("k") == "mk" or o.get("t") in ("D", "DP", "DA", "DO") or any(uses_d(v) for v in o.values())
    if isinstance(o, list): return any(uses_d(v) for v in o)
    return False

def called(o, acc):
    if isinstance(o, dict):
        if o.get("k") in ("call", "fnref"): acc.add(o["s"])
        for v in o.values(): called(v, acc)
    elif isinstance(o, list):
        for v in o: called(v, acc)
    return acc

def program(p, annotate=1):
    r = Render(p["prog"], annotate)
    d = uses_d(p["main"]) or uses_d(p["funs"])
    used, todo = set(), called([p["main"], [f for f in p["funs"] if f["g"] == 0]], set())
    by = {f["n"]: f for f in p["funs"]}
    while todo:
        n = todo.pop()
        if n in used or n not in by: continue
        used.add(n); todo |= called(by[n], set())
    out = PRE + (PRE_D if d else "")
    for f in p["funs"]:
        if f["n"] in used or f["g"] == 0: out += r.fun(f) + "\n"
    return out + r.fun(p["main"]) + "\n"

FIELDS = {}
def value(v):
    """Structural JSON of a specification value, in the harness's format."""
    k = v["k"]
    if k == "i": return v["n"]
    if k == "b": return v["n"] == 1
    if k == "u": return None
    if k == "s": return v["s"]
    if k == "t": return {"tup": [value(x) for x in v["c"]]}
    if k == "a": return {"arr": [value(x) for x in v["c"]]}
    if k == "c":
        return {"tag": v["s"].split("::")[-1], "p": [value(x) for x in v["c"]]}
    if k == "d": return {"d": value(v["c"][0])}
    raise Exception("value " + k)
