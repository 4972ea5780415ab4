-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Selection of match arms and the rule that accepts a match.               *)
(*                                                                          *)
(* A seed gives types (enumerations with tuple and record variants, some    *)
(* without values; options, tuples, records, structs), a match on one of    *)
(* them, with arms that may hold further matches on what they bind, and     *)
(* inputs.  Arms are tried in order, one per step.  Accepts is the rule     *)
(* decided from the values of the type: no arm twice, every value fitted.   *)
(* TLC checks that an accepted match never runs out of arms, and that one   *)
(* rejected only for missing arms does for some value.                      *)
(*                                                                          *)
(* A value is a flat sequence of integers: FALSE 0, TRUE 1, an integer or   *)
(* string its index in a table (the last index in no pattern), a variant    *)
(* its index followed by its payload.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Rng2
CONSTANTS SeedLo, SeedHi, MaxIn
VARIABLES seed, prog, inp, at, log, ph
vars == <<seed, prog, inp, at, log, ph>>

-----------------------------------------------------------------------------
\* Types
B == [k |-> "bool"]  I == [k |-> "int"]  S == [k |-> "str"]  Z == [k |-> "never"]
Tup(ts) == [k |-> "tup", ts |-> ts]
Rec(ts) == [k |-> "rec", ts |-> ts]
Struct(ts) == [k |-> "struct", ts |-> ts]
Enum(i) == [k |-> "enum", id |-> i]
Opt(t) == [k |-> "opt", t |-> t]

\* variants of an enumeration or option: sequence of [kind, ts]; kind 0 without payload, 1 tuple, 2 record
Variants(es, T) == IF T.k = "opt" THEN << [kind |-> 0, ts |-> <<>>], [kind |-> 1, ts |-> <<T.t>>] >> ELSE es[T.id]
Parts(T) == T.ts
IsSum(T) == T.k \in {"enum", "opt"}

RECURSIVE Vals(_, _), Prod(_, _)
Vals(es, T) ==
  CASE T.k = "bool" -> {<<0>>, <<1>>}
    [] T.k \in {"int", "str"} -> {<<0>>, <<1>>, <<2>>, <<3>>}
    [] T.k = "never" -> {}
    [] T.k \in {"tup", "rec", "struct"} -> Prod(es, T.ts)
    [] OTHER -> LET vs == Variants(es, T) IN UNION {{<<i>> \o p : p \in Prod(es, vs[i].ts)} : i \in 1..Len(vs)}
Prod(es, ts) == IF ts = <<>> THEN {<<>>} ELSE {a \o b : a \in Vals(es, Head(ts)), b \in Prod(es, Tail(ts))}

\* number of integers the value at the head of the sequence takes, and its splitting into components
RECURSIVE Width(_, _, _), Widths(_, _, _)
Width(es, T, v) ==
  CASE T.k \in {"bool", "int", "str"} -> 1
    [] T.k \in {"tup", "rec", "struct"} -> Widths(es, T.ts, v)
    [] OTHER -> 1 + Widths(es, Variants(es, T)[Head(v)].ts, Tail(v))
Widths(es, ts, v) == IF ts = <<>> THEN 0
                     ELSE LET w == Width(es, Head(ts), v) IN w + Widths(es, Tail(ts), SubSeq(v, w + 1, Len(v)))
RECURSIVE Split(_, _, _)
Split(es, ts, v) == IF ts = <<>> THEN <<>>
                    ELSE LET w == Width(es, Head(ts), v) IN <<SubSeq(v, 1, w)>> \o Split(es, Tail(ts), SubSeq(v, w + 1, Len(v)))

-----------------------------------------------------------------------------
\* Generation
Leafs == << <<5, B>>, <<3, I>>, <<2, S>>, <<2, Tup(<<B, B>>)>>, <<2, Opt(B)>>, <<1, Z>>, <<1, Tup(<<B, Z>>)>>, <<1, Rec(<<B, I>>)>> >>
GenField(s, below) == IF below > 0 /\ Chance(Sub(s, 1), 20) THEN Enum(1 + Rnd(Sub(s, 2), below)) ELSE PickW(Sub(s, 3), Leafs)
GenVariant(s, below) ==
  LET kind == PickW(Sub(s, 1), << <<3, 0>>, <<5, 1>>, <<4, 2>> >>)
      n == IF kind = 0 THEN 0 ELSE PickW(Sub(s, 2), << <<5, 1>>, <<4, 2>> >>)
  IN [kind |-> kind, ts |-> [i \in 1..n |-> GenField(Sub(s, 10 + i), below)]]
GenEnum(s, below) == LET n == PickW(Sub(s, 1), << <<1, 1>>, <<4, 2>>, <<4, 3>>, <<2, 4>> >>) IN [i \in 1..n |-> GenVariant(Sub(s, 20 + i), below)]
GenEnums(s) == LET a == GenEnum(Sub(s, 1), 0) b == GenEnum(Sub(s, 2), 1) IN <<a, b>>
Flat == << <<4, B>>, <<2, I>>, <<2, S>> >>
GenTop(s) ==
  LET f(i) == PickW(Sub(s, i), Flat) IN
  PickW(Sub(s, 1), << <<6, Enum(1)>>, <<6, Enum(2)>>, <<2, Opt(f(2))>>, <<1, Opt(Enum(1))>>, <<2, B>>, <<2, I>>, <<2, S>>,
                      <<2, Tup(<<f(3), f(4)>>)>>, <<2, Rec(<<f(5), f(6)>>)>>, <<2, Struct(<<f(7), f(8)>>)>>,
                      <<1, Tup(<<B, Tup(<<f(9), B>>)>>)>>, <<1, Tup(<<B, B, B>>)>> >>)

RECURSIVE Shuffle(_, _)
Shuffle(s, q) == IF q = <<>> THEN <<>> ELSE LET i == 1 + Rnd(Sub(s, 1), Len(q)) IN <<q[i]>> \o Shuffle(Sub(s, 2), RemoveAt(q, i))
RECURSIVE Thin(_, _, _)
Thin(s, q, pc) == IF q = <<>> THEN <<>> ELSE (IF Chance(Sub(s, 1), pc) THEN <<Head(q)>> ELSE <<>>) \o Thin(Sub(s, 2), Tail(q), pc)
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))

Literable(es, T) == T.k \in {"bool", "int", "str"} \/ (T.k \in {"tup", "rec"} /\ ~\E i \in 1..Len(T.ts) : T.ts[i].k = "never")
\* values that can be written in a pattern: no index 3 of an integer or string
RECURSIVE Lits(_, _)
Lits(es, T) == CASE T.k = "bool" -> {<<0>>, <<1>>}
                 [] T.k \in {"int", "str"} -> {<<0>>, <<1>>, <<2>>}
                 [] OTHER -> LET RECURSIVE P(_)
                                 P(ts) == IF ts = <<>> THEN {<<>>} ELSE {a \o b : a \in Lits(es, Head(ts)), b \in P(Tail(ts))}
                             IN P(T.ts)

RECURSIVE GenMatch(_, _, _, _, _)
GenBody(es, s, binds, id, depth) ==
  IF depth < 2 /\ binds # <<>> /\ Chance(Sub(s, 1), 35)
  THEN LET b == PickOf(Sub(s, 2), binds) IN
       IF Vals(es, b.t) # {} /\ (IsSum(b.t) \/ Literable(es, b.t) \/ b.t.k = "struct") THEN [k |-> "match", x |-> b.i, m |-> GenMatch(es, Sub(s, 3), b.t, id, depth + 1)] ELSE [k |-> "leaf"]
  ELSE IF Chance(Sub(s, 4), 12) THEN [k |-> "ret"] ELSE [k |-> "leaf"]
\* arm for variant i
GenArm(es, s, T, i, id, depth, qual) ==
  LET v == Variants(es, T)[i]
      n == Len(v.ts)
      some == Thin(Sub(s, 1), [j \in 1..n |-> j], 60)
      dots == v.kind = 2 /\ Chance(Sub(s, 2), 40) /\ some # <<>>
      xs == IF v.kind = 2 THEN Shuffle(Sub(s, 3), IF dots THEN some ELSE [j \in 1..n |-> j]) ELSE [j \in 1..n |-> j]
      short == n > 0 /\ Chance(Sub(s, 4), 6)
      us == IF short THEN Tail(xs) ELSE xs
  IN [pat |-> [k |-> "var", tag |-> i, qual |-> qual, xs |-> us, dots |-> dots /\ us # <<>>, bad |-> short /\ ~(dots /\ us # <<>>), kind |-> v.kind],
      body |-> GenBody(es, Sub(s, 5), [j \in 1..Len(us) |-> [i |-> us[j], t |-> v.ts[us[j]]]], id, depth)]
GenMatch(es, s, T, id, depth) ==
  IF IsSum(T) THEN
    LET n == Len(Variants(es, T))
        all == Shuffle(Sub(s, 1), [i \in 1..n |-> i])
        possible == SelectSeq(all, LAMBDA i : Prod(es, Variants(es, T)[i].ts) # {})
        kept == IF Chance(Sub(s, 2), 55) THEN all ELSE IF Chance(Sub(s, 3), 50) THEN possible ELSE Thin(Sub(s, 4), all, 70)
        twice == IF kept # <<>> /\ Chance(Sub(s, 5), 4) THEN Append(kept, kept[1]) ELSE kept
        qual == T.k = "enum" /\ Chance(Sub(s, 6), 60)
    IN [arms |-> [j \in 1..Len(twice) |-> GenArm(es, Sub(s, 30 + j), T, twice[j], id * 10 + j, depth, qual)],
        def |-> twice = <<>> \/ (IF Len(kept) < n THEN Chance(Sub(s, 7), 60) ELSE Chance(Sub(s, 7), 12))]
  ELSE IF T.k \in {"int", "str", "bool", "tup", "rec", "struct"} /\ ~\E i \in 1..(IF T.k \in {"tup", "rec", "struct"} THEN Len(T.ts) ELSE 0) : ~(Literable(es, T.ts[i])) THEN
    LET ls == IF T.k = "struct" THEN Lits(es, Tup(T.ts)) ELSE Lits(es, T)
        all == Shuffle(Sub(s, 1), SetToSeq(ls))
        kept == Take(IF Chance(Sub(s, 2), 55) THEN all ELSE Thin(Sub(s, 3), all, 60), 8)
        twice == IF kept # <<>> /\ Len(kept) < 8 /\ Chance(Sub(s, 4), 4) THEN Append(kept, kept[1]) ELSE kept
        full == Len(kept) = Cardinality(Vals(es, T))
    IN [arms |-> [j \in 1..Len(twice) |-> [pat |-> [k |-> "lit", v |-> twice[j], rev |-> Chance(Sub(s, 50 + j), 40)],
                                          body |-> GenBody(es, Sub(s, 30 + j), <<>>, id * 10 + j, depth)]],
        def |-> twice = <<>> \/ (IF full THEN Chance(Sub(s, 5), 15) ELSE Chance(Sub(s, 5), 75))]
  ELSE [arms |-> <<>>, def |-> TRUE]

\* unannotated parameters are left to inference only where every variant has values
NoNever(es, T) == LET vs == IF IsSum(T) THEN Variants(es, T) ELSE <<>> IN \A i \in 1..Len(vs) : Prod(es, vs[i].ts) # {}
GenProg(n) ==
  LET s == Seed(n) es == GenEnums(Sub(s, 1)) top == GenTop(Sub(s, 2))
      T == IF Vals(es, top) = {} THEN Opt(B) ELSE top       \* known finding F28b: matches on a type without values
      vs == SetToSeq(Vals(es, T))
  IN [es |-> es, t |-> T, m |-> GenMatch(es, Sub(s, 3), T, 1, 0), ins |-> Take(Shuffle(Sub(s, 4), vs), MaxIn), all |-> Len(vs) <= MaxIn,
      scrut |-> Rnd(Sub(s, 5), 6), ann |-> Chance(Sub(s, 6), 75) \/ ~(IsSum(T) /\ NoNever(es, T)), pos |-> Rnd(Sub(s, 7), 4)]

-----------------------------------------------------------------------------
\* The rule
Fits(p, T, v) == IF p.k = "lit" THEN v = p.v ELSE Head(v) = p.tag
SameArm(p, q) == IF p.k = "lit" THEN p.v = q.v ELSE p.tag = q.tag
Twice(m) == \E i, j \in 1..Len(m.arms) : i < j /\ SameArm(m.arms[i].pat, m.arms[j].pat)
Covered(es, m, T) == m.def \/ \A v \in Vals(es, T) : \E i \in 1..Len(m.arms) : Fits(m.arms[i].pat, T, v)
RECURSIVE Verdict(_, _, _)
Compo(es, T, p, x) == Variants(es, T)[p.tag].ts[x]
Verdict(es, m, T) ==      \* "ok", or why not
  IF Twice(m) THEN "twice"
  ELSE IF \E i \in 1..Len(m.arms) : m.arms[i].pat.k = "var" /\ m.arms[i].pat.bad THEN "shape"
  ELSE IF ~Covered(es, m, T) THEN "missing"
  ELSE LET In == {i \in 1..Len(m.arms) : m.arms[i].body.k = "match"}
           W == {Verdict(es, m.arms[i].body.m, Compo(es, T, m.arms[i].pat, m.arms[i].body.x)) : i \in In}
       IN IF W \subseteq {"ok"} THEN "ok" ELSE IF "twice" \in W THEN "twice" ELSE IF "shape" \in W THEN "shape" ELSE "inner"

\* A variant without values is left out, and there is no fallback.  The implementation allows it where the type of the scrutinee is known
\* when the match is reached (a parameter with a type, directly); elsewhere it wants an arm (known finding F28a).
RECURSIVE Omits(_, _, _, _)
Omits(es, m, T, deep) ==
  \/ /\ deep /\ ~m.def /\ IsSum(T)
     /\ \E i \in 1..Len(Variants(es, T)) : ~\E j \in 1..Len(m.arms) : m.arms[j].pat.tag = i
  \/ \E j \in 1..Len(m.arms) : m.arms[j].body.k = "match" /\ Omits(es, m.arms[j].body.m, Compo(es, T, m.arms[j].pat, m.arms[j].body.x), TRUE)
OmitsUnknown(p) == Omits(p.es, p.m, p.t, ~(p.ann /\ p.scrut \in {0, 4}))

-----------------------------------------------------------------------------
\* Runs.  at: [m, t, v, i, id] the match under way, arm i being tried; log: for every input the arms entered with what they bind
Init == /\ seed \in SeedLo..SeedHi /\ prog = GenProg(seed) /\ inp = 1 /\ ph = "next" /\ log = <<>> /\ at = [i |-> 0]

Start == /\ ph = "next" /\ inp <= Len(prog.ins)
         /\ at' = [m |-> prog.m, t |-> prog.t, v |-> prog.ins[inp], i |-> 1, id |-> 1] /\ ph' = "try"
         /\ log' = Append(log, <<>>) /\ UNCHANGED <<seed, prog, inp>>
Say(e) == log' = [log EXCEPT ![Len(log)] = Append(@, e)]
Leave == ph' = "next" /\ inp' = inp + 1 /\ at' = [i |-> 0]
Try ==
  /\ ph = "try"
  /\ IF at.i > Len(at.m.arms)
     THEN IF at.m.def THEN Say([id |-> at.id * 10 + 9, b |-> <<>>]) /\ Leave
          ELSE Say([id |-> -1, b |-> <<>>]) /\ Leave                            \* no arm fits
     ELSE LET a == at.m.arms[at.i] IN
          IF ~Fits(a.pat, at.t, at.v) THEN at' = [at EXCEPT !.i = @ + 1] /\ UNCHANGED <<log, ph, inp>>
          ELSE LET ts == IF a.pat.k = "var" THEN Variants(prog.es, at.t)[a.pat.tag].ts ELSE <<>>
                   cs == IF a.pat.k = "var" THEN Split(prog.es, ts, Tail(at.v)) ELSE <<>>
                   id == at.id * 10 + at.i
               IN /\ Say([id |-> id, b |-> IF a.pat.k = "var" THEN [j \in 1..Len(a.pat.xs) |-> cs[a.pat.xs[j]]] ELSE <<>>])
                  /\ IF a.body.k = "match"
                     THEN at' = [m |-> a.body.m, t |-> ts[a.body.x], v |-> cs[a.body.x], i |-> 1, id |-> id] /\ UNCHANGED <<ph, inp>>
                     ELSE Leave
  /\ UNCHANGED <<seed, prog>>
Report == /\ ph = "next" /\ inp > Len(prog.ins) /\ ph' = "done"
          /\ PrintT(ToJson([seed |-> seed, p |-> prog, why |-> Verdict(prog.es, prog.m, prog.t), log |-> log, open |-> OmitsUnknown(prog)]))
          /\ UNCHANGED <<seed, prog, inp, at, log>>
Next == Start \/ Try \/ Report
Spec == Init /\ [][Next]_vars

Stuck == \E i \in 1..Len(log) : \E j \in 1..Len(log[i]) : log[i][j].id = -1
AcceptedSelects == Verdict(prog.es, prog.m, prog.t) = "ok" => ~Stuck
MissingIsFelt == (ph = "done" /\ prog.all /\ Verdict(prog.es, prog.m, prog.t) = "missing") => Stuck
=============================================================================
