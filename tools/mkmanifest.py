"""Writes MANIFEST.json: claimed checks from the table below, every other property under not_applicable."""
import json
REPLAY = "TLA+ specification explored by TLC; its behaviours replayed into the implementation"
CLAIMED = {}   # id -> (technique, level, note)
def claim(pid, note, technique=REPLAY, level="model_checking"):
    CLAIMED[pid] = (technique, level, note)
CORE = ("Seeded programs generated inside spec/Gen.tla, every step explored by TLC on spec/Core.tla with its invariants; "
        "outcome, failure and the whole host-visible log compared with the implementation in three execution modes. "
        "Bounded: program size, three argument sets, seeds of the tier. ")
claim("C01", CORE + "Optimised runs may elide clones (decided by a matching search).")
claim("C02", CORE + "Emphasis: places, mutation, aliasing, by-reference parameters, captures.")
claim("C03", CORE + "Emphasis: operands and arguments with logged evaluation.")
claim("C04", CORE + "Emphasis: loops, labels, jumps, for, match in value position.")
claim("C05", CORE + "Emphasis: instance identities; TLC invariants NoDoubleDrop and NoLeak; log of creation, clone and drop compared.")
claim("C06", CORE + "Emphasis: failing operations at every position; log up to the failure and cleanup compared.")
claim("C09", CORE + "Emphasis: closures, captures, function values.")
claim("C12", "spec/Effects.tla: what every run of a seeded module of effect-polymorphic functions can perform (callable parameters, closures, recursion groups, trait methods, associated effects), explored by TLC with the invariant that a run performs no more than the signature; the compiler's inferred effects, its accepted and refused uses, impl mismatches and the effects observed in runs compared. Bounded: program size, seeds.")
claim("C13", "spec/Infer.tla: unification-based principal types and constraints of seeded unannotated functions, annotated instances and rejections, compared with the compiler's signatures; plus generic programs of spec/Core.tla replayed at several types. Bounded: program size, seeds.")
claim("C14", "spec/NumMC.tla over the byte-level word model spec/Word.tla: complete operator tables on boundary operands, literal (folded) forms and seeded expressions, in three execution modes. Bounded: operands and seeds; shift amounts below the width.")
claim("C15", "spec/Coll.tla: histories of array operations (append, prepend, pop, indexed read and write, slice, concatenation, copy, iteration) on several arrays with instance-carrying and plain elements; every history explored by TLC and replayed with the elements, failures and instance accounting compared in three execution modes. Bounded: history length, seeds.")
claim("C16", "spec/Hash.tla: histories of insertions, replacements, lookups, unions, copies, by-reference and by-value uses, sets of sets and maps of sets, on mathematical sets and finite functions, explored by TLC with laws in every state; ten key types including a user type with clashing hashes; everything shown (iteration as a multiset) compared in three execution modes. Bounded: history length, 60 labels, seeds; the library has no removal.")
claim("C17", "spec/Str.tla: an explicit model of normal form C and grapheme clusters over an alphabet with a case of each rule, and histories of string operations on it (append, concatenation, formatting, slices, replacement, case, trimming, search, comparison, iteration, splitting, joining), explored by TLC with laws in every state; everything shown and the final strings compared in three execution modes. Bounded: the alphabet, history length, seeds.")
claim("C24", "spec/Seqs.tla: pipelines of sources, adaptors and consumers as pull machines, checked by TLC against the definition on whole sequences; calls of function arguments, shown elements and failures compared with the implementation (three modes when the adaptors' functions neither log nor fail, else direct HIR execution because of finding F20). Bounded: pipeline length, seeds.")
exec(open("/verif/tools/claims.py").read()) if __import__("os").path.exists("/verif/tools/claims.py") else None
claim("C08", "spec/LimitMC.tla: the core machine with a fuel limit and the exact number of iterations and nesting of calls; its programs run under 18 limits (fuel, call depth, environment cells) in three execution modes, each violation followed by a re-entry of the poisoned executor and a fresh run; spec/Endless.tla: rings of functions, closures, methods and value operations without an end, which must end in a violation of the matching kind. Bounded: program size, seeds, the limits tried; fuel spent inside library functions is only bounded, not exact.")
claim("C19", "spec/Session.tla: sessions of modules with failing, cyclic and changing sources; TLC checks that fresh means current and stale has a reason in every order of rebuilding, and the recorded state of every module (staleness, dependencies, errors, revision, version) after each submission must be one the specification allows. Bounded: 5 modules, 22 submissions, seeds.")
claim("C20", "spec/Session.tla: the same histories with the entry of every fresh module run after each submission in three execution modes and compared with the value of the current sources. Bounded: 5 modules, 22 submissions, seeds.")
claim("C10", "spec/Match.tla: matches on sums with values and without, options, literals, tuples, records and structs, nested and with fallbacks, annotated or inferred; TLC checks that an accepted match never runs out of arms and that one rejected for missing arms does; verdict, arms entered, bound components and single evaluation of the scrutinee compared with the implementation in three execution modes. Bounded: type size, nesting 2, seeds; where a variant without values is left out on a scrutinee of inferred type either verdict is allowed (finding F28a).")
claim("C07", "spec/Access.tla: a small-step machine with a stack of open accesses runs seeded functions on chains of scoped accessors, addressors, fields and indices (assignment, compound assignment, calls, jumps and failures out of them); TLC checks that every access is closed once, in nested order, on every way out; the events of prologues, epilogues, guards and operands, the final state and the ending compared with the implementation in three execution modes. Bounded: fifteen accessors, seeds.")
claim("C21", "spec/Names.tla: sessions of seeded modules (nested paths, public and private functions, structs, enums, traits) loaded one by one with all forms of use declarations; TLC checks that a name leads only to an item of that name that is public or own, elsewhere only through a use, and that nothing is shadowed; verdict and the item reached compared with the implementation for every way of naming it. Bounded: four modules, seven names, seeds.")
claim("C11", "spec/Mut.tla: seeded modules of functions with annotated and inferred parameters, their demands for mutability closed one at a time in every order (TLC checks that all orders end with the same least set); the verdict (an immutable target, overlapping mutable arguments, or neither) is compared with the implementation's. Bounded: four functions, three parameters, ints, tuples and arrays, seeds.")
claim("C18", "spec/Serde.tla: seeded types and values, what they are serialized to, the JSON and data-text grammars (writing and reading tokens) and the type-directed decoding; TLC checks that what is written is read back as the same value; edits of the tokens and other target types give malformed and unfitting texts. Encodings are compared token by token and decodings with the specified value or failure. Bounded: depth three, a table of numbers and characters, up to two edits; failing decodes of aggregates that own storage run only in the HIR interpreter (finding F4).")
claim("C22", "spec/Coh.tla: seeded implementations (heads with type variables, blanket and conditional ones) over modules that own different traits and types, added in every order; TLC checks on the ground types that never two apply to one type and that the verdict does not depend on the order; the verdict of each module and, per query (direct, through generic functions and modules), the implementation that runs are compared. Bounded: ten implementations, types of depth three, seeds.")
NA = {"C23": "A standard library restored from a cache is reachable only inside the crate's private snapshot code; deciding it needs a further hook that loads both and replays the behaviours of the other specifications on each; not built in the time available.",
      "C25": "Needs arbitrary malformed source text: what a specification can generate is well-formed or locally edited, so this is the domain of fuzzing. Panics of the compiler met by the other checks' programs are violations there; those outside are listed in DESIGN.md."}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/build.sh",
     "hooks": {"guard": "cfg(ferlium_verif)", "enable": "RUSTFLAGS=\"--cfg ferlium_verif\" (tools/build.sh)", "source_commits": ["ae24efb3a542f92aeba5ad3548159a11d4d3c4d0"]},
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMED],
     "notes": "Specifications in spec/*.tla (TLA+, TLC); harness in harness/; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
