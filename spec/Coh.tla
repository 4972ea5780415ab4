--------------------------------- MODULE Coh ---------------------------------
(***************************************************************************)
(* Coherence: at most one implementation of a trait applies to a type.      *)
(*                                                                          *)
(* Modules t (the condition trait K), a (trait R, types A, GA<V>,           *)
(* PA<V, W>), b (trait Q, types B, GB<V>) and c (type C) are loaded in that *)
(* order, each with seeded implementations.  An implementation is a head    *)
(* with type variables and possibly the condition V: K; what it applies to  *)
(* is the set of the ground types its head has instances of whose V has K.  *)
(* The implementations of a module are taken in every order: one is added   *)
(* when its trait or the outermost type of its head is the module's own and *)
(* no implementation added before applies to a type it applies to, and      *)
(* otherwise the module is rejected.  TLC checks that never two apply to    *)
(* the same type and that the order does not matter.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2, SequencesExt
CONSTANTS SeedLo, SeedHi
VARIABLES seed, prog, at, added, ext, st
vars == <<seed, prog, at, added, ext, st>>
Base == {<<"int">>, <<"string">>, <<"A">>, <<"B">>}
Over(S) == {<<k, x>> : k \in {"arr", "GA", "GB"}, x \in S}
D2 == Base \cup Over(Base) \cup {<<"PA", x, y>> : x, y \in Base}
Univ == D2 \cup Over(D2) \cup {<<"C">>}
V == <<"V">>
W == <<"W">>
RECURSIVE Subst(_, _, _), HasVar(_)
Subst(p, v, w) == IF p = V THEN v ELSE IF p = W THEN w ELSE IF Len(p) = 1 THEN p ELSE IF Len(p) = 2 THEN <<p[1], Subst(p[2], v, w)>> ELSE <<p[1], Subst(p[2], v, w), Subst(p[3], v, w)>>
HasVar(p) == p \in {V, W} \/ \E i \in 2..Len(p) : HasVar(p[i])
\* the ground types with K: listed ones, and arrays of such when the library says so
RECURSIVE KClose(_)
KClose(ks) == LET n == ks \cup {<<"arr", x>> : x \in ks \cap D2} IN IF n = ks THEN n ELSE KClose(n)
Ks(p, m) == LET l == p.kt \cup (IF m >= 1 THEN p.ka ELSE {}) \cup (IF m >= 2 THEN p.kb ELSE {}) IN IF p.karr THEN KClose(l) ELSE l
Ext(i, ks) == IF ~HasVar(i.head) THEN {i.head} ELSE {Subst(i.head, v, w) : v \in (IF i.cond THEN ks ELSE Univ), w \in Base} \cap Univ
Owner == [int |-> "std", string |-> "std", arr |-> "std", A |-> "a", GA |-> "a", PA |-> "a", B |-> "b", GB |-> "b", C |-> "c", V |-> "none", W |-> "none"]
TraitOwner == [R |-> "a", Q |-> "b"]
Mods == <<"a", "b", "c">>
Orphan(i) == TraitOwner[i.tr] # i.m /\ Owner[i.head[1]] # i.m

-----------------------------------------------------------------------------
HeadsOf(m) == CASE m = "a" -> << <<2, <<"int">> >>, <<2, <<"string">> >>, <<2, <<"arr", <<"int">> >> >>, <<3, <<"arr", V>> >>, <<3, <<"A">> >>, <<4, <<"GA", V>> >>, <<3, <<"GA", <<"int">> >> >>, <<2, <<"GA", <<"A">> >> >>,
                  <<2, <<"GA", <<"arr", V>> >> >>, <<2, <<"PA", V, <<"int">> >> >>, <<2, <<"PA", <<"int">>, V>> >>, <<2, <<"PA", V, V>> >>, <<1, <<"PA", V, W>> >>, <<2, <<"PA", <<"A">>, <<"string">> >> >>, <<1, <<"arr", <<"GA", V>> >> >>, <<2, V>> >>
               [] m = "b" -> << <<4, <<"B">> >>, <<5, <<"GB", V>> >>, <<3, <<"GB", <<"int">> >> >>, <<3, <<"GB", <<"B">> >> >>, <<2, <<"GB", <<"GA", V>> >> >>, <<2, <<"GB", <<"arr", V>> >> >>, <<2, <<"GA", <<"B">> >> >>, <<1, <<"GA", V>> >>, <<1, <<"int">> >>, <<1, V>>,
                  <<1, <<"arr", <<"B">> >> >>, <<1, <<"PA", V, V>> >>, <<1, <<"PA", <<"B">>, V>> >>, <<1, <<"arr", V>> >> >>
               [] OTHER -> << <<6, <<"C">> >>, <<1, <<"GA", <<"int">> >> >>, <<1, <<"B">> >>, <<1, <<"GB", V>> >> >>
GenImpl(s, m, n) == LET h == PickW(Sub(s, 1), HeadsOf(m)) tr == IF m = "a" THEN "R" ELSE PickW(Sub(s, 2), << <<1, "R">>, <<1, "Q">> >>)
                        cond == HasVar(h) /\ Chance(Sub(s, 3), IF h = V THEN 85 ELSE 45)
                        \* mostly not an orphan
                        fix == TraitOwner[tr] # m /\ Owner[h[1]] # m /\ Chance(Sub(s, 4), 70) IN
  [m |-> m, n |-> n, head |-> h, tr |-> IF fix /\ m = "b" THEN "Q" ELSE tr, cond |-> cond, drop |-> fix /\ m = "c"]
GenMod(s, m, lo, hi, off) == SelectSeq([i \in 1..(lo + Rnd(Sub(s, 1), hi - lo + 1)) |-> GenImpl(Sub(s, 10 + i), m, off + i)], LAMBDA i : ~i.drop)
QTypes == D2 \cup {<<k, <<l, x>> >> : k \in {"GA", "GB", "arr"}, l \in {"arr", "GA"}, x \in Base}
GenProg(n) == LET s == Seed(n) a == GenMod(Sub(s, 1), "a", 1, 4, 0) b == GenMod(Sub(s, 2), "b", 1, 4, 10) c == GenMod(Sub(s, 3), "c", 0, 2, 20) IN
  [impls |-> a \o b \o c, kt |-> {<<"int">>} \cup (IF Chance(Sub(s, 4), 30) THEN {<<"string">>} ELSE {}), ka |-> IF Chance(Sub(s, 5), 30) THEN {<<"A">>} ELSE {},
   kb |-> IF Chance(Sub(s, 6), 30) THEN {<<"B">>} ELSE {}, karr |-> Chance(Sub(s, 7), 30), shuf |-> Rnd(Sub(s, 8), 5),
   form |-> PickW(Sub(s, 9), << <<3, "direct">>, <<2, "generic">>, <<2, "own">>, <<2, "viab">> >>), qs |-> Sub(s, 10)]

Init == /\ seed \in SeedLo..SeedHi /\ prog = GenProg(seed) /\ at = 1 /\ added = {} /\ st = "load"
        /\ ext = LET kk == [m \in 1..3 |-> Ks(prog, m)] IN [m \in 1..3 |-> [i \in 1..Len(prog.impls) |-> Ext(prog.impls[i], kk[m])]]
Im == prog.impls
Mine(m) == {i \in 1..Len(Im) : Im[i].m = Mods[m]}
Clash(m, i, j) == Im[i].tr = Im[j].tr /\ ext[m][i] \cap ext[m][j] # {}
\* a condition that came to hold later makes two added implementations apply
Late(m) == \E i, j \in added : i < j /\ Clash(m, i, j)
Reject(why) == st' = why /\ UNCHANGED <<seed, prog, at, added, ext>>
Add == /\ st = "load" /\ \E i \in Mine(at) \ added :
            IF Orphan(Im[i]) \/ \E j \in added : Clash(at, i, j) THEN Reject("rejected")
            ELSE added' = added \cup {i} /\ UNCHANGED <<seed, prog, at, ext, st>>
\* a condition can only begin to hold when a module is loaded
Load == /\ st = "load" /\ Mine(at) \subseteq added
        /\ IF at = 3 THEN st' = "loaded" /\ UNCHANGED <<seed, prog, at, added, ext>>
           ELSE IF Late(at + 1) THEN Reject("late") ELSE at' = at + 1 /\ UNCHANGED <<seed, prog, added, ext, st>>
\* the module's verdict does not depend on the order
Bad(m) == \E i \in Mine(m) : Orphan(Im[i]) \/ \E j \in {x \in 1..Len(Im) : x # i /\ \E y \in 1..m : Im[x].m = Mods[y]} : Clash(m, i, j)
Kinds(m) == (IF \E i \in Mine(m) : Orphan(Im[i]) THEN {"TraitImplOrphanRuleViolation"} ELSE {}) \cup
            (IF \E i \in Mine(m) : \E j \in {x \in 1..Len(Im) : x # i /\ \E y \in 1..m : Im[x].m = Mods[y]} : Clash(m, i, j) THEN {"OverlappingTraitImpls"} ELSE {})
Applies(tr, t) == {i \in added : Im[i].tr = tr /\ t \in ext[3][i]}
\* queries: a type to which an implementation applies, or any; not from the generic implementations of the module the query is in
Queries == LET hit == {<<tr, t>> \in {"R", "Q"} \X QTypes : Applies(tr, t) # {}} IN
  [i \in 1..4 |-> LET s == Sub(prog.qs, i)
IN
     LET pool == IF i <= 3 /\ hit # {} THEN hit ELSE {"R", "Q"} \X QTypes
         q == SetToSeq(pool)[1 + Rnd(s, Cardinality(pool))] IN [tr |-> q[1], t |-> q[2], by |-> Applies(q[1], q[2])]]
End == /\ st \in {"loaded", "rejected", "late"} /\ st' = "done" /\ UNCHANGED <<seed, prog, at, added, ext>>
       /\ PrintT(ToJson([seed |-> seed, p |-> prog, v |-> st, at |-> Mods[at], kinds |-> Kinds(at), q |-> IF st = "loaded" THEN Queries ELSE <<>>]))
Next == Add \/ Load \/ End
Spec == Init /\ [][Next]_vars

Coherent == \A tr \in {"R", "Q"} : \A t \in Univ : Cardinality({i \in added : Im[i].tr = tr /\ t \in ext[at][i]}) <= 1
Ordered == (st = "rejected" => Bad(at)) /\ (st = "loaded" => \A m \in 1..3 : ~Bad(m))
=============================================================================
