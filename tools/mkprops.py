import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":observe,"hook_needed":hook}})
EV=["src/emit_mir.rs","src/mir/interpreter.rs","src/eval.rs","src/hir/emit_expr.rs","src/types/type_inference/expr.rs"]
p("C01","All execution modes give the same result",
 "Every accepted program has one meaning: direct HIR execution, MIR execution and optimized MIR execution return the same value or stop with the same source failure, after the same sequence of host reads and writes. Optimization never turns a returning run into a failing or non-terminating one, nor removes, adds or reorders effectful operations; it may only elide a clone whose source dies.",
 ["programs","inputs"],"all accepted programs x all entry arguments x {HIR, MIR, optimized MIR}",
 "The language suite runs fixed programs; the space of programs an optimizer pass (inline, cse, licm, fold, copy_forward, dce, bounds_check ...) can mis-transform is unbounded.",
 ["src/mir/pass","src/emit_mir.rs","src/eval.rs","src/mir/interpreter.rs","src/compiler/pipeline.rs"],
 [("HIR interpreter","src/eval.rs"),("HIR to MIR lowering","src/emit_mir.rs"),("optimization pipeline","src/mir/pass/mod.rs")],
 ["value returned by a run","RuntimeErrorKind","host call log"])
p("C02","Mutable value semantics: updates never leak through values",
 "Binding, storing, passing by value, capturing or returning a value yields an independent value: writing through one place is never visible through another, and every write to a place (variable, field, tuple element, array element, nested path, by-mutable-reference parameter) is visible to every later read of exactly that place. A by-value argument is the value at the time it was evaluated, even if a later argument of the same call mutates its source.",
 ["programs","inputs"],"all accepted programs that copy and mutate variables, fields, elements and parameters",
 "Aliasing bugs show only for particular combinations of copies, paths, calls and optimizations; tests cover a few shapes each.",
 ["src/hir/elaboration.rs","src/hir/borrow_checker.rs","src/emit_mir.rs","src/mir/pass/copy_forward.rs","src/mir/pass/owned_arguments.rs","src/eval.rs"],
 [("clone/move elaboration","src/hir/elaboration.rs"),("place lowering","src/emit_mir.rs")],
 ["final values of all places","log of intermediate reads"],
 [("store","mapping from places to values","src/eval.rs, src/mir/interpreter.rs")])
p("C03","Operands are evaluated once, left to right",
 "Operands, arguments, tuple/array/struct elements, receiver, index and right-hand-side expressions are each evaluated exactly once and in source order, and `and`/`or` evaluate the right operand only when it decides the result. An assignment evaluates and bounds-checks its target place before its right-hand side; a compound assignment evaluates its target place once.",
 ["programs"],"all expressions with effectful sub-expressions in every operand position",
 "Order and multiplicity are only visible when each operand position has an observable effect, in combination; tests use pure operands.",
 EV+["src/desugar/expr.rs"],[("lowering order","src/emit_mir.rs"),("access-chain inference","src/types/type_inference/expr.rs")],
 ["host call log"])
p("C04","Structured control flow does what its syntax says",
 "if/match/block/loop/for/break/continue/labels/return transfer control exactly as written: a loop's value is the value of the break that left it, a label selects the named enclosing loop, continue goes to the next iteration, return leaves the function, and a range or array `for` visits exactly its elements in order (including empty, reversed and inclusive ranges). Statements after a taken jump never run.",
 ["programs","inputs"],"all nestings of loops, labels, conditionals, matches and jumps, with all bounds",
 "Tests contain a small number of nestings; lowering to a CFG plus passes such as licm, branch_forward, tail_merge depends on the nesting.",
 EV+["src/mir/pass/licm.rs","src/mir/pass/branch_forward.rs","src/mir/pass/tail_merge.rs","src/std/prelude"],
 [("CFG construction","src/emit_mir.rs"),("loop passes","src/mir/pass/licm.rs")],["returned value","host call log"])
p("C05","Every owned value is dropped exactly once, at the right point",
 "On every path out of a scope (normal end, break, continue, labelled break, return, source failure) each live owned local and temporary of that scope is dropped exactly once, innermost scope first and in reverse order of creation, and moved-out or never-initialized values are not dropped. Overwriting a place drops its old value exactly once, no value is used after it is dropped, and none is leaked.",
 ["programs","fault_sequences"],"all programs creating, moving, cloning, overwriting and abandoning values with observable destructors, on all exits",
 "Drop paths multiply with exits and failure points; tests in mir_leaks cover chosen shapes and mostly final counts.",
 ["src/hir/elaboration.rs","src/emit_mir.rs","src/mir/verify.rs","src/mir/interpreter.rs","src/eval.rs","src/mir/pass/owned_arguments.rs"],
 [("scope cleanup lowering","src/emit_mir.rs"),("uninit tracking","src/mir/interpreter.rs")],
 ["log written by user-defined Value::drop/clone"],
 [("live instances","set of tracked instances created and not yet dropped","host log")])
p("C06","A source failure stops the program, cleans up and keeps prior effects",
 "When an operation fails (division by zero, out-of-bounds access, exhausted match, panic, failing host function) no later operation of the program runs except cleanup, every effect performed before is kept and none is undone, and the caller receives exactly that failure. After a source failure the same executor and compiled code run later calls normally; a second failure raised by cleanup is reported as a failure during cleanup carrying both causes.",
 ["programs","fault_sequences"],"every failing operation at every point of every program, including inside loops, calls, closures and cleanup",
 "Each test fails at one place; the property quantifies over all failure points and what follows.",
 ["src/eval.rs","src/mir/interpreter.rs","src/emit_mir.rs","src/execution.rs","src/mir/pass/dce.rs"],
 [("error propagation edges","doc/mir-error-propagation.md, src/emit_mir.rs")],["RuntimeErrorKind","host call log","later calls on the same session"])
p("C07","Scoped accessors run prologue, body and epilogue exactly once",
 "An access through a `yield` subscript or addressor runs its prologue before the access, exactly one access to the yielded place, and its epilogue exactly once after it, whether the accessing code ends normally, by break/continue/return, or by a source failure. Nested accesses end in reverse order of starting, and a write through the access is visible in the underlying place after the epilogue. An access that is the argument of a call lasts until the call ends; read as a value otherwise, it is copied and ends at once.",
 ["programs","fault_sequences"],"all read, write, compound and mutable-argument uses of user-defined accessors, nested, with all exits",
 "Accessor tests check fixed shapes; suspended-frame handling depends on how the access is nested and left.",
 ["src/hir/emit_subscripts.rs","src/emit_mir.rs","src/eval.rs","src/mir/interpreter.rs","src/types/type_inference/expr.rs"],
 [("suspended accessor frames","src/eval.rs, src/mir/interpreter.rs")],["host call log","final values"])
p("C08","Sandbox limits contain every execution and poison only their domain",
 "Under any fuel, call-depth and environment-cell limit every run ends, either as it would without the limit or with a sandbox violation of the matching kind; a smaller limit never changes a returned value or source failure into a different one. After a violation no further guest code (including cleanup) runs and the executor rejects re-entry, while fresh executors over the same session behave as if nothing happened.",
 ["programs","configurations"],"all programs (terminating or not) x all limit values x all execution modes",
 "Tests pick one limit per program; the property is over every limit value at which execution can be cut, and every loop shape an optimizer can produce.",
 ["src/execution.rs","src/eval.rs","src/mir/interpreter.rs","src/mir/verify.rs","src/ide/execution.rs"],
 [("fuel checks on every cycle","src/mir/verify.rs"),("poisoning","src/execution.rs")],["run outcome","log prefix","re-entry result"])
p("C09","Functions are values: closures capture by value at creation",
 "Calling a function value runs the function it denotes with its captured values as they were when the closure was created; later changes to captured variables are not seen, and changes a closure makes to its captures are not seen by the creator nor by a later call. Storing, passing, returning or selecting a function value does not change what a call of it does.",
 ["programs","inputs"],"all closures, named functions and partial selections used as values, across calls and data structures",
 "Capture analysis depends on the shape of the body and its nesting; tests cover few.",
 ["src/hir/emit_functions.rs","src/hir/function.rs","src/emit_mir.rs","src/eval.rs","src/mir/pass/known_callee.rs","src/mir/pass/inline.rs"],
 [("closure environments","src/eval.rs, src/mir/interpreter.rs")],["returned value","host call log"])
p("C10","Matching selects the first fitting arm and is checked for exhaustiveness",
 "A match evaluates its scrutinee once and runs exactly the first arm whose pattern fits, binding each variable to the corresponding component. A match without fallback is accepted exactly when its arms cover every value of the scrutinee's type, and an accepted match never fails to select an arm.",
 ["programs","inputs"],"all sets of patterns over literals, tuples, records and variants x all scrutinee values",
 "Exhaustiveness and arm selection are combinatorial in patterns and values; tests list examples.",
 ["src/hir/match.rs","src/desugar/patterns.rs","src/emit_mir.rs","src/types/type_inference/expr.rs"],
 [("exhaustiveness analysis","src/hir/match.rs")],["accept/reject","returned value"])
p("C11","Illegal mutation and overlapping mutable access are rejected, nothing else",
 "A program that assigns to, or passes as mutable, an immutable place is rejected, and so is a call in which two overlapping places are passed as mutable (an overlapping argument passed as a value is copied instead); programs that only mutate mutable, non-overlapping places are accepted. Mutability of a parameter is inferred from its uses, through chains of calls of named functions; functions that call each other may have theirs inferred together.",
 ["programs"],"all combinations of binding mutability, paths and argument lists",
 "The acceptance boundary is combinatorial in paths and call chains; tests sample both sides.",
 ["src/hir/borrow_checker.rs","src/types/mutability.rs","src/types/type_inference/expr.rs"],
 [("borrow checker","src/hir/borrow_checker.rs"),("mutability constraints","src/types/mutability.rs")],["accept/reject"])
p("C12","Inferred effects are exactly what the code can do",
 "The effects of a function are the union of the effects of everything its body can call, transitively, through function parameters, closures, recursion and trait methods, and appear in its signature; a function not declared fallible/read/write never fails, reads or writes. A use that requires fewer effects than the function has is rejected.",
 ["programs"],"all call graphs (including recursive and higher-order ones) over functions with each effect set",
 "Effect inference is a fixpoint over arbitrary call graphs; tests check examples.",
 ["src/types/effects.rs","src/types/type_inference/effect_solver.rs","src/types/type_inference/expr.rs"],
 [("effect solver","src/types/type_inference/effect_solver.rs")],["inferred signature","accept/reject"])
p("C13","Type inference is sound, principal and independent of annotations",
 "An accepted program never performs an operation on a value of the wrong shape, and a program that would is rejected. Functions are given their most general type, so a generic function, including one using trait methods, behaves at every type it is used with like the same function written for that type; adding correct annotations changes nothing.",
 ["programs"],"all programs with polymorphic, trait-constrained and higher-order functions, at all instantiations",
 "Inference, dictionary passing and monomorphization interact over unbounded programs; tests sample.",
 ["src/types/type_inference","src/types/trait_solver.rs","src/hir/dictionary.rs","src/mir/pass/monomorphize.rs"],
 [("unification","src/types/type_inference/unify.rs"),("dictionary passing","src/hir/dictionary.rs")],["inferred signature","accept/reject","returned value"])
p("C14","Integer arithmetic is exact or wraps as documented, and never undefined",
 "Integer operators and functions (+, -, *, negation, idiv, div by zero, rem, mod, comparisons, bit operations, shifts by less than the width, abs/sign/min/max/clamp) give the mathematically defined result in two's complement for every operand, and fail with the documented failure exactly when undefined. Constant-folded and run-time evaluation agree.",
 ["inputs"],"all pairs of integers, in particular extremes, in folded and run-time form",
 "Tests use small operands; edge behaviour lies at extremes and in the folding pass.",
 ["src/std/math.rs","src/std/core.rs","src/mir/pass/fold.rs","src/mir/const_eval.rs","src/mir/pass/peephole.rs","src/mir/pass/relations.rs"],
 [("native arithmetic","src/std/math.rs"),("folding","src/mir/pass/fold.rs")],["returned value"])
p("C15","Arrays are sequences under every history of operations",
 "After any history of appends, prepends, pops at both ends, indexed reads and writes (positive and negative), slices, concatenations, copies and iterations an array equals the sequence those operations define; reads outside its bounds fail and change nothing. Copies of an array evolve independently.",
 ["histories","inputs"],"all operation histories on arrays and copies of them",
 "Growth, wrap-around and copy behaviour depend on the history; tests use short fixed histories.",
 ["src/std/array_type.rs","src/std/buffer.rs","src/std/prelude","src/mir/pass/bounds_check.rs"],
 [("array implementation","src/std/prelude"),("bounds-check elimination","src/mir/pass/bounds_check.rs")],["contents after each operation"])
p("C16","Sets and maps behave as mathematical sets and finite maps",
 "After any history of inserts, replacements, lookups, unions of entries and copies (the library has no removal), a set or map contains exactly the elements or bindings that history defines, for every key type with equality and hashing; insertion reports the previous state correctly and iteration yields each entry once. Equality ignores order and copies evolve independently.",
 ["histories","inputs"],"all operation histories over small key domains, including colliding keys and growth",
 "Hash-table bugs need particular histories of collisions, removals and growth.",
 ["src/std/prelude","src/std/hash.rs","src/std/buffer.rs"],
 [("hash table","src/std/prelude"),("Hash","src/std/hash.rs")],["contents after each operation"])
p("C17","Strings are sequences of characters under every operation",
 "Concatenation, in-place append, repetition, slicing, searching, splitting, replacing, comparison, case and trimming operations on strings give the result defined on their character sequence, for every string including empty and non-ASCII ones, and never expose a partial character. Copies of a string are independent of later in-place appends.",
 ["histories","inputs"],"all strings over a small alphabet with multi-byte characters x all operations and histories",
 "Offsets and boundary cases (empty, multi-byte, overlapping matches) are combinatorial.",
 ["src/std/string.rs","src/std/prelude","src/mir/pass/string_accumulate.rs"],
 [("string implementation","src/std/string.rs"),("append accumulation","src/mir/pass/string_accumulate.rs")],["returned strings"])
p("C18","Serialization round-trips and rejects what does not fit",
 "Deserializing the serialization of a value, through DataValue, JSON or data text, yields an equal value of the same type for every serializable type and value (through text except DataValue itself, whose Unit and Null, or Tuple and Array, JSON writes alike). Surplus components and fields are ignored, and an int decodes from a float by rounding. Decoding text that is malformed or does not fit the expected type fails with a source failure and never yields a wrong value.",
 ["inputs"],"all values of all serializable types built from scalars, strings, arrays, tuples, records, variants, sets and maps",
 "Round trips must hold for every nesting and every string needing escapes; tests use examples.",
 ["src/std/serde.rs","src/std/json.rs","src/std/data_text.rs","src/std/data_value.rs"],
 [("codecs","src/std/json.rs, src/std/data_text.rs")],["decoded value equals original","failure kind"])
p("C19","Module staleness and revisions track dependencies exactly",
 "After any history of (re)compilations, source updates and failures, a module is stale exactly when it or something it transitively uses changed since its last successful compilation, and revisions only grow. Recompiling the stale modules brings every dependent up to date.",
 ["histories"],"all histories of compile/update/break/fix over all small acyclic module graphs",
 "Tests follow a few linear histories on two or three modules; diamonds and failure orders multiply.",
 ["src/compiler/session.rs","src/compiler/pipeline.rs","src/module/uses.rs","src/compiler/artifacts.rs"],
 [("dependency and staleness tracking","src/compiler/session.rs")],["stale sets","revisions"],
 [("module graph","modules, deps, revisions, stale flags","src/compiler/session.rs")])
p("C20","Code always runs against the current version of what it uses",
 "After a module is recompiled, every later run of anything that depends on it, directly or transitively, uses the new definitions (or is refused because it no longer compiles); a failed compilation changes nothing that was usable before. Cyclic imports are refused without damage.",
 ["histories"],"all histories of successful and failing compilations over all small module graphs, interleaved with runs",
 "As above; stale code is only visible if dependents are run after particular histories.",
 ["src/compiler/session.rs","src/compiler/pipeline.rs","src/module/mod.rs"],
 [("recompilation of dependents","src/compiler/pipeline.rs")],["values returned by dependents after each step"])
p("C21","Names resolve by visibility and imports only, without silent shadowing",
 "A module can name another module's item exactly when the item is public (or its own), by path or through a use declaration that imports it; private items are never reachable, a name imported twice, reached through two wildcard imports, or colliding with a definition is an error (at its use, or at the declaration) rather than silently chosen, and the resolved item is the one named.",
 ["programs"],"all small sets of modules with public/private items and all path, named, grouped and wildcard imports",
 "Resolution cases are combinatorial in modules, visibility and import forms.",
 ["src/module/module_env.rs","src/desugar/import_resolver.rs","src/module/path.rs","src/module/mod.rs"],
 [("import resolution","src/desugar/import_resolver.rs"),("lookup","src/module/module_env.rs")],["accept/reject","value identifying the resolved item"])
p("C22","Trait implementations are coherent",
 "For every trait and type at most one implementation can apply: overlapping implementations and implementations owned by neither the trait's nor a type's module are rejected, non-overlapping local ones are accepted. A trait method call runs the one applicable implementation.",
 ["programs"],"all small sets of implementations (concrete, generic, constrained) spread over modules",
 "Overlap and orphan rules are combinatorial in heads and modules.",
 ["src/types/coherence.rs","src/types/trait_solver.rs","src/module/trait_impl.rs"],
 [("coherence check","src/types/coherence.rs")],["accept/reject","value identifying the implementation that ran"])
p("C23","A cached standard library behaves like a freshly compiled one",
 "A session started from the compiled-library cache runs every program with the same result as one that compiled the library from source. A missing, truncated, corrupted, foreign or outdated cache is never used and never stops a session from starting; a valid one is published atomically.",
 ["crash_points","histories"],"all cache file states (absent, valid, truncated at any point, flipped bytes, other key) and interleavings of readers and writers",
 "Tests use an intact cache; corruption points are unbounded.",
 ["src/compiler/snapshot","src/compiler/artifacts.rs","src/std/mod.rs","build.rs"],
 [("cache load/store","src/compiler/snapshot")],["session creation","program results","cache directory contents"])
p("C24","Iterators and sequence functions follow their sequence definition",
 "map, filter, fold, take, skip, enumerate, zip, chain, any/all/find, sum/product/min/max, collect, sort and similar functions give the result defined on the sequence, calling their function argument once per needed element and in order, for every sequence. Sorting yields an ordered permutation and is stable.",
 ["inputs","programs"],"all sequences x all pipelines of sequence functions",
 "Pipelines compose arbitrarily; edge cases (empty, short, early stop) multiply.",
 ["src/std/prelude","src/std/array_type.rs","src/std/option.rs"],
 [("iterator prelude","src/std/prelude")],["returned value","host call log"])
p("C25","Compilation always ends with a module or located diagnostics",
 "For every source text compilation terminates without panicking, either producing a module or a non-empty list of diagnostics whose locations lie inside the source; formatting or re-spacing the source, or compiling it again, does not change the outcome.",
 ["inputs"],"all texts",
 "Tests compile chosen texts; malformed and unusual texts are unbounded.",
 ["src/parser","src/desugar","src/compiler/error","src/compiler/diagnostics.rs","src/format.rs"],
 [("parser and error reporting","src/parser, src/compiler/error")],["outcome of compile","diagnostic spans"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
