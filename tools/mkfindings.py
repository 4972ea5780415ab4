"""Writes known_findings.json (committed; never written by a check)."""
import json
PRE_D = """struct D { l: int, id: int }
impl Value for D {
  fn eq(left: D, right: D) -> bool { left.l == right.l }
  fn to_string(value: D) -> string { to_string(value.l) }
  fn hash(value: D, state: &mut hasher) { hash(value.l, state) }
  fn clone(source: D) -> D { D { l: source.l, id: host::cloned(source.l, source.id) } }
  fn drop(target: &mut D) { host::dropped(target.l, target.id) }
}
fn mk(l: int) -> D { D { l: l, id: host::fresh(l) } }
"""
F = []
def fixed(prop, commit, what):
    F.append({"property": prop, "status": "fixed", "entry": "fixed: property=%s %s %s" % (prop, commit, what)})
def known(prop, fid, what, src, args, expect, modes):
    F.append({"property": prop, "status": "known", "id": fid, "what": what, "src": src, "args": args, "expect": expect,
              "modes": modes})

for p in ("C05", "C25"):
    fixed(p, "8e833f7", "the environment of a closure over trivially copyable values was never released")
for p in ("C25", "C01"):
    fixed(p, "33bf8b1", "`let z: Option<string> = None` in a loop panicked the MIR verifier of debug builds")

for p in ("C04", "C02", "C01"):
    fixed(p, "c25ef25", "after a closed inner scope (e.g. a for loop), `break x` moved out a local x declared outside the loop it leaves")

for p in ("C14", "C25", "C01"):
    fixed(p, "9190a06", "idiv, rem, mod, idiv_euclid by -1 and abs panicked on the smallest int")
for p in ("C01", "C25"):
    fixed(p, "8a4741d", "optimized code branching or matching on a loaded place pointer panicked (`fn f(p: &mut bool) -> int { if p {7} else {8} }`, `f(a[1])`)")
for p in ("C09", "C01", "C05", "C25"):
    fixed(p, "e706bcc", "returning a captured variable moved it out of the closure environment (panic; the next call read an uninitialized capture)")
fixed("C12", "fc5d1d1", "the effects of a lambda joined with a function parameter were lost (`let k = if c { g } else { |x| { host::log(x); x } }; k(1)` typed as free of write)")
for p in ("C01", "C02"):
    fixed(p, "76baf41", "optimized code reused the address of `a[i]` after `i` was assigned (`let x = a[i]; i = o; let y = a[i]`)")

for p in ("C12", "C06"):
    fixed(p, "b284868", "an effect inclusion lost the primitive effects of a lower side with variables (`impl Tr for S { fn tm(x) { idiv(1, x.a) } }` accepted for a pure method; `need(|x| { host::log(x); g(x) }, n)` typed without write; optimized code panicked on the unexpected failure)")
fixed("C01", "f91afe8", "optimized code kept the bounds proved for a part of an aggregate after the aggregate was overwritten (`if p.0.0 >= 0 and p.0.0 < len(a) { p.0 = q; a[p.0.0] }` panicked)")

for p in ("C01", "C05"):
    fixed(p, "17b19c2", "an owned variant of a function moved a parameter out inside a loop (optimized code of `fn f1(n, h) { loop { let k = (h, n).0; k(n); .. } }` panicked in the MIR verifier)")
fixed("C12", "0af4331", "a late call whose effects are the union of several variables absent from the argument types was rejected as an internal error")
fixed("C12", "e1f591d", "a callable parameter whose uses bound its effects was quantified over all effects: `fn f1(g) { need(g) }` admitted callables the function's effects do not show")
fixed("C12", "b76c5d7", "effects of closures that use function parameters several times, or nest in loops, were lost (`let k = |x| { g(x); g(x); 1 }; k(n)` typed as pure); a trait method performing effects its impl does not bind was accepted")
a = PRE_D + "fn main(n: int) -> int { let z = (mk(1), if n == 3 { host::log(9); return 7 } else { mk(6) }); z.0.l }\n"
JUMP = "a jump out of a later element of a tuple literal whose earlier elements own storage: "
for p in ("C05",):
    known(p, "F1", JUMP + "direct HIR execution never drops the elements already built (`(mk(1), return 7)`)", a, [3],
          {"ok": 7, "log": ["N1", "L9", "D1"]}, ["hir"])
known("C01", "F4a", JUMP + "MIR execution does not run (`(mk(1), if n == 3 { return 7 } else { mk(6) })`)", a, [3],
      {"ok": 7}, ["mir", "opt"])
b = "fn main(m: int) -> int { let z = ([1, 2], [idiv(4, m)]); host::log(1); z.0[0] }\n"
FAILB = "a failure in a later element of a tuple literal whose earlier elements own storage is not reported as that failure by MIR execution (`([1, 2], [idiv(4, 0)])`)"
for p in ("C01", "C06"):
    known(p, "F4b", FAILB, b, [0], {"fail": "Division by zero"}, ["mir", "opt"])
c = PRE_D + "fn main(n: int) -> int { let z = [mk(1), mk(idiv(4, n))]; z[0].l }\n"
for p in ("C05", "C06"):
    known(p, "F4c", "a failure in a later element of an array literal of owning elements: the elements already built are never dropped by direct HIR execution", c,
          [0], {"fail": "Division by zero", "log": ["N1", "D1"]}, ["hir"])
    known(p, "F4d", "a failure in a later element of an array literal of owning elements is not reported as that failure by MIR execution", c,
          [0], {"fail": "Division by zero"}, ["mir", "opt"])
BCE = "optimized code drops a bounds check on the strength of a comparison whose operands wrapped: "
known("C01", "F12a", BCE + "`if 0 - i < 1 { if i < len(a) { a[i] } }` with the smallest int panics instead of failing",
      "fn main(i: int) -> int { let a = [1, 2, 3]; if 0 - i < 1 { if i < len(a) { return a[i] } }; -1 }\n", [-9223372036854775808],
      {"fail": "Aborted: Array access out of bounds"}, ["opt"])
known("C01", "F12b", BCE + "`if i >= 0 { if i + 1 < 1 + len(a) { a[i] } }` with the largest int panics instead of failing",
      "fn main(i: int) -> int { let a = [1, 2, 3]; if i >= 0 { if i + 1 < 1 + len(a) { return a[i] } }; -1 }\n", [9223372036854775807],
      {"fail": "Aborted: Array access out of bounds"}, ["opt"])
known("C03", "F2", "a compound assignment evaluates the index expression of its target twice (`a[host::tap(1)] += 5`)",
      "fn main() -> int { let mut a = [1, 2]; a[host::tap(1)] += 5; a[1] }\n", [], {"ok": 7, "log": ["T1"]}, ["hir", "mir", "opt"])
known("C03", "F3", "the fields of a struct literal are evaluated in alphabetical order, not in source order (`R { y: tap(1), x: tap(2) }`)",
      "struct R { x: int, y: int }\nfn main() -> int { let r = R { y: host::tap(1), x: host::tap(2) }; r.x * 10 + r.y }\n", [],
      {"ok": 21, "log": ["T1", "T2"]}, ["hir", "mir", "opt"])
known("C03", "F5", "a struct field reached through another projection is read after the right operand ran (`b.1.x + { b.1.x += 2; n }`)",
      "struct P { x: int, y: int }\nfn main(n: int) -> int { let mut b = (1, P { x: 4, y: 2 }); b.1.x + { b.1.x += 2; n } }\n", [4],
      {"ok": 8}, ["hir", "mir", "opt"])
known("C02", "F5b", "a by-value argument reached through a field of a projected struct aliases a mutable argument of the same call (`f2(z.p.y, z.p)`)",
      "struct P { x: int, y: int }\nstruct Q { p: P, q: int }\nfn f2(p: &mut int, q: P) -> int { p = 9; p += q.y; 3 }\n"
      "fn main(o: int) -> int { let mut z = Q { p: P { x: o, y: 4 }, q: 0 }; f2(z.p.y, z.p); z.p.y }\n", [1], {"ok": 13}, ["hir", "mir", "opt"])
known("C03", "F5c", "a compound assignment to a field of a struct of unresolved type reads the field after its right-hand side ran",
      "struct P { x: int, y: int }\nfn main(o: int) -> int { let mut c = if o > 9 { P { x: 1, y: 2 } } else { P { x: 3, y: 4 } }; c.y *= { c.y = 10; o }; c.y }\n",
      [2], {"ok": 8}, ["hir", "mir", "opt"])
known("C04", "F6", "an inclusive range that ends at the largest int never ends (`for i in 9223372036854775806..=9223372036854775807`)",
      "fn main(x: int) -> int { let mut n = 0; for i in (x - 1)..=x { n += 1; if n > 5 { return -1 } }; n }\n", [9223372036854775807], {"ok": 2}, ["hir", "mir", "opt"])
known("C13", "F9", "capturing (or putting into a tuple) an array of functions whose type is not fully known panics the compiler (`fn f(z) { |w| z[1](true) }`)",
      "fn f(z) { |w| z[1](true) }\nfn main() -> int { 1 }\n", [], {"ok": 1}, ["hir"])
for p in ("C05", "C06"):
    known(p, "F18", "direct HIR execution of a call with a projected temporary as one argument and an owned temporary as another leaves the projected aggregate undropped (`f1((\"a\", n).0, \"b\")`, debug assertion)",
          "fn f1(g: string, h: string) -> int { 1 }\nfn main(n: int) -> int { f1((\"a\", n).0, \"b\") }\n", [1], {"ok": 1}, ["hir"])
fixed("C16", "cf5b943", "the Value impls of sets and maps were not used (structural equality and hash of the buckets instead): `set {1, 7, 10} == set {7, 10, 1}` was false")
fixed("C16", "25c76fa", "the Value impl of maps could never apply (its equality took an entry where iteration yields a pair), so maps compared their buckets")
fixed("C17", "dfc058a", "string_push_str of text starting with a Hangul vowel or final left the string unnormalized (unequal to the concatenation; debug panic on a later push)")
F20 = "effects of a function given to a lazily pulled adaptor are lost: "
for p in ("C01", "C06", "C24"):
    known(p, "F20a", F20 + "MIR execution panics when the mapper fails (`collect(map(iter([1]), |x| { idiv(7, 0); .. }))`)",
          "fn main(n: int) -> int { let s = map(iter([1]), |x| { let y: int = x; idiv(7, y - n); y }); let q: [int] = collect(s); len(q) }\n", [1],
          {"fail": "Division by zero"}, ["mir", "opt"])
known("C12", "F20b", F20 + "`let mut s = filter(iter([2]), |x| { host::tap(x); .. }); next(s)` is typed as free of write",
      "fn main() -> int { let mut s = filter(iter([2]), |x| { let y: int = x; host::tap(y); y == y }); next(s); 1 }\n", [],
      {"ok": 1, "sigs": {"main": ["write"]}}, ["hir"])
fixed("C08", "35ab85d", "the call depth limit did not bound recursion through closures, trait implementations and value operations (the process overflowed its stack)")
fixed("C08", "82ffbc9", "a sandbox violation inside a block that owns a local panicked in direct HIR execution (debug assertion about leaks)")
fixed("C10", "a30fabc", "a match with only a default arm did not evaluate its scrutinee")
fixed("C10", "3d17cf0", "`if` or a bool match on a field bound with `..` in a match on a parameter of inferred type panicked the MIR compiler")
known("C10", "F28a", "a variant without values can be left out only where the scrutinee's type is known when the match is reached, not for `match id(v)`",
      "enum Nothing {}\nenum E { A(int), B(Nothing) }\nfn id(x) { x }\nfn m(v: E) -> int { match id(v) { A(x) => x } }\nfn main(n: int) -> int { m(E::A(n)) }\n", [3],
      {"ok": 3}, ["hir"])
known("C10", "F28b", "a match on a type without values used as an operand panics the MIR compiler (`0 + match v { .. }`, debug assertion)",
      "enum Nothing {}\nfn m(v: Nothing) -> int { 0 + (match v { _ => 1 }) }\nfn main(n: int) -> int { n }\n", [3], {"ok": 3}, ["mir"])
fixed("C10", "850e158", "record types were unified on their common leading fields only: a pattern missing the last field, or a function returning a record with more or fewer fields, was accepted")
S7 = """struct S { v: int, d: int }
subscript c1(s: &mut S, k: int) -> int { ref { host::log(10 + k); let l = s.v; yield l; host::log(20 + k) } mut { host::log(30 + k); let mut l = s.v; yield l; host::log(40 + k); s.v = l } }
subscript S.p(self) -> int { ref { host::log(110); let l = self.d; yield l; host::log(120) } mut { host::log(130); let mut l = self.d; yield l; host::log(140); self.d = l } }
subscript ad(s: &mut S) -> int { ref mut { s.v } }
fn add(x: int, y: int) -> int { x + y }
"""
fixed("C07", "5503346", "a function using a subscript passed to it as a value before the subscript's users were compiled panicked the compiler (missing dependency)")
fixed("C03", "9613019", "an assignment whose value diverges did not evaluate the target place (index effects and bounds check were skipped)")
fixed("C07", "ddfb8e7", "optimized code reused results computed before a yield after it, though the code around the access had changed their source")
fixed("C07", "286cb32", "optimized code kept facts about caller-provided storage across a yield (a condition on a field written during the access was folded)")
known("C07", "F30", "the prologues of accesses read directly as call arguments run before the earlier arguments are evaluated (`add(host::tap(1), s.p)`)",
      S7 + "fn main() -> int { let mut s = S { v: 3, d: 5 }; add(host::tap(1), s.p) }\n", [], {"ok": 6, "log": ["T1", "L110", "L120"]}, ["hir", "mir", "opt"])
known("C07", "F32", "an argument of an accessor that is a plain place is not copied when the access begins: the epilogue sees later changes (`s->[c1](t.v) = { t.v = 3; 1 }`)",
      S7 + "fn main() -> int { let mut s = S { v: 3, d: 5 }; let mut t = S { v: 2, d: 0 }; s->[c1](t.v) = { t.v = 3; 1 }; s.v }\n", [],
      {"ok": 1, "log": ["L32", "L42"]}, ["hir", "mir", "opt"])
known("C07", "F33", "an argument of a call read through an addressor is not copied before the next argument runs (`add(s->[ad], { s.v = 10; 2 })`)",
      S7 + "fn main() -> int { let mut s = S { v: 3, d: 5 }; add((s->[ad]), { s.v = 10; 2 }) }\n", [], {"ok": 5}, ["hir", "mir", "opt"])
known("C07", "F5d", "a compound assignment through an addressor reads the old value after its right-hand side ran (`s->[ad] += { s.v = 10; 2 }`)",
      S7 + "fn main() -> int { let mut s = S { v: 3, d: 5 }; s->[ad] += { s.v = 10; 2 }; s.v }\n", [], {"ok": 5}, ["hir", "mir", "opt"])
known("C07", "F35", "assigning a whole place from an access of itself whose prologue can fail after a droppable local panics the optimizer's verifier",
      "subscript wh(s: &mut [int], k: int) -> [int] { ref { let l = s; idiv(6, k); yield l; host::log(1) } mut { let mut l = s; yield l; s = l } }\n"
      "fn f(s: &mut [int]) { s = s->[wh](2) }\nfn main() -> int { let mut a = [1, 2]; f(a); len(a) }\n", [], {"ok": 2}, ["opt"])
for p in ("C11", "C02"):
    fixed(p, "e170dae", "in a recursive call, an argument of a parameter inferred mutable was passed as a value or mutated although immutable, and overlaps were not rejected")
known("C11", "F37", "two fields of a place of not yet known type cannot be passed as mutable in one call (`let mut q = mkq(); b2(q.p.x, q.p.y)` is rejected)",
      "struct P { x: int, y: int } struct Q { p: P } fn mkq() { Q { p: P { x: 1, y: 2 } } } fn b2(a: &mut int, b: &mut int) { a += 1; b += 1 }\n"
      "fn f(p) { b2(p.x, p.y) }\nfn main() -> int { let mut q = mkq(); f(q.p); q.p.x }\n", [], {"ok": 2}, ["hir", "mir", "opt"])
known("C11", "F40", "a component of a mutable place cannot be passed to a closure whose parameter is inferred mutable (`let h = |x| { x += 3 }; h(v.0)` is rejected)",
      "fn main() -> int { let mut v = (1, 2); let h = |x| { x += 3 }; h(v.0); v.0 }\n", [], {"ok": 4}, ["hir", "mir", "opt"])
known("C11", "F5", "a struct field read through a projection passed as mutable together with the struct is accepted (`f2(z.p.y, z.p)`)",
      "struct P { x: int, y: int } struct Z { p: P } fn f2(p: &mut int, q: &mut P) { p = 1; q.y = q.y + 1 }\n"
      "fn main() -> int { let mut z = Z { p: P { x: 1, y: 2 } }; f2(z.p.y, z.p); z.p.y }\n", [], {"rejected": True}, ["hir"])
T7 = "trait Tr<Self> { fn tt(x: Self) -> int; }\nstruct G<V>(V)\n"
known("C22", "F43", "a generic implementation does not apply in the functions of its own module",
      T7 + "impl<V> Tr for G<V> where V: Value { fn tt(x: G<V>) -> int { 7 } }\nfn main() -> int { tt(G(1)) }\n", [], {"ok": 7}, ["hir"])
known("C22", "F44", "a generic implementation of a condition's trait that follows in the same module is not considered for overlap",
      T7 + "trait K<Self> { fn k(x: Self) -> int; }\nimpl K for int { fn k(x: int) -> int { 1 } }\nimpl Tr for [G<int>] { fn tt(x: [G<int>]) -> int { 8 } }\n"
      "impl<V> Tr for [V] where V: Value, V: K { fn tt(x: [V]) -> int { 7 } }\nimpl<V> K for G<V> where V: Value { fn k(x: G<V>) -> int { 1 } }\nfn main() -> int { 1 }\n", [], {"rejected": True}, ["hir"])
for p in ("C22", "C25"):
    fixed(p, "664b348", "the overlap check did not end with a recursive generic implementation of a condition's trait")
fixed("C18", "55299b1", "data text of a variant with one record argument (`Some({ x: 1 })`) decoded as a variant with a record payload, and failed")
fixed("C18", "8dde6ad", "floats without fractional part beyond the range of integers were written to data text that could not be decoded")
fixed("C18", "bba068a", "decoding a number beyond the range of integers as an int gave the largest int")
for p in ("C18", "C06"):
    fixed(p, "aa4d7ed", "a failing derived deserialization (of a tuple, record or enum) panicked in the MIR interpreter")
known("C18", "F4", "decoding an aggregate that owns storage panics in the MIR interpreter when a part that is not the first fails to decode",
      "fn main() -> int { let w: (int, string, [int]) = deserialize(serialize((1, \"b\", \"c\"))); w.0 }\n", [], {"fail": "Aborted"}, ["mir", "opt"])
json.dump({"findings": F}, open("/verif/known_findings.json", "w"), indent=1)
