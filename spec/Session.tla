------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A compilation session: modules, what they use, what changed since, and   *)
(* the rebuilding of dependents.                                            *)
(*                                                                          *)
(* A history submits sources for modules.  A module that compiles against   *)
(* fresh modules becomes fresh and every stale module that uses it is       *)
(* rebuilt, in some order; a module that does not compile, or that uses a   *)
(* stale one, is stale, and with it everything that uses it.  What a module *)
(* exports to others is its last revision that was fresh.                   *)
(*                                                                          *)
(* With Traced, the states after each submission are matched against those  *)
(* recorded from the implementation (trace.ndjson), the rebuilding order    *)
(* being left open; every step of a recorded history must be explained.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi, N, Steps, Traced
VARIABLES seed, t, ph, ent, pend, cur, hit
vars == <<seed, t, ph, ent, pend, cur, hit>>

Mods == 1..N
NoSrc == [bad |-> 0, uses |-> <<>>, k |-> -1, g |-> FALSE, ty |-> 0, form |-> 0]
NoEnt == [ex |-> FALSE, src |-> NoSrc, good |-> NoSrc, deps |-> {}, stale |-> FALSE, err |-> FALSE]

Trace == IF Traced THEN ndJsonDeserialize("trace.ndjson") ELSE <<>>
TraceOf(n) == Trace[n - SeedLo + 1].steps

-----------------------------------------------------------------------------
\* Sources.  bad: 0 well formed, 1 a syntax error, 2 a type error, 3 an unknown name.  uses: sequence of [m, w]: what w of module m is
\* used: "f" its function f (an int, or a string when ty = 1), "g" its function g (absent unless g), "q" its generic function.
Ws == << <<5, "f">>, <<2, "g">>, <<2, "q">>, <<2, "c">> >>
RECURSIVE GenUses(_, _, _)
GenUses(s, js, acc) ==
  IF js = <<>> THEN acc
  ELSE GenUses(Sub(s, 3), Tail(js), IF Chance(Sub(s, 1), 45) THEN Append(acc, [m |-> Head(js), w |-> PickW(Sub(s, 2), Ws)]) ELSE acc)
Below(i) == [j \in 1..(i - 1) |-> j]
Others(i) == [j \in 1..(N - 1) |-> IF j < i THEN j ELSE j + 1]
Fresh0(s, i) == [bad |-> IF Chance(Sub(s, 1), 6) THEN 1 + Rnd(Sub(s, 2), 3) ELSE 0, uses |-> GenUses(Sub(s, 3), Below(i), <<>>),
                 k |-> Rnd(Sub(s, 4), 50), g |-> Chance(Sub(s, 5), 75), ty |-> 0, form |-> Rnd(Sub(s, 6), 4)]
Edits == << <<5, "k">>, <<2, "bad">>, <<3, "fix">>, <<2, "g">>, <<1, "ty">>, <<3, "uses">>, <<1, "cycle">>, <<2, "same">>, <<1, "form">>, <<2, "drop">> >>
Edit(s, i, o) ==
  LET e == PickW(Sub(s, 1), Edits) fresh == Fresh0(Sub(s, 2), i) IN
  IF o.k = -1 THEN fresh
  ELSE CASE e = "k" -> [o EXCEPT !.k = (o.k + 1 + Rnd(Sub(s, 3), 20)) % 60]
         [] e = "bad" -> [o EXCEPT !.bad = 1 + Rnd(Sub(s, 4), 3)]
         [] e = "fix" -> [o EXCEPT !.bad = 0, !.ty = 0, !.g = TRUE]
         [] e = "g" -> [o EXCEPT !.g = ~@]
         [] e = "ty" -> [o EXCEPT !.ty = 1 - @]
         [] e = "uses" -> [o EXCEPT !.uses = GenUses(Sub(s, 5), Below(i), <<>>), !.bad = 0]
         [] e = "cycle" -> [o EXCEPT !.uses = GenUses(Sub(s, 6), Others(i), <<>>), !.bad = 0]
         [] e = "drop" -> [o EXCEPT !.uses = IF @ = <<>> THEN @ ELSE Tail(@)]
         [] e = "form" -> [o EXCEPT !.form = (@ + 1) % 4]
         [] OTHER -> o
\* the submission of step t: module, source, and through which entry point
Op(n, step, en) ==
  LET s == Sub(Seed(n), step)
      order == IF Chance(Sub(Seed(n), 99), 75) THEN step ELSE 1 + Rnd(Sub(s, 7), N)
      i == IF step <= N THEN (IF order > N THEN N ELSE order) ELSE 1 + Rnd(Sub(s, 8), N)
  IN [m |-> i, src |-> Edit(Sub(s, 9), i, en[i].src), mir |-> Chance(Sub(s, 10), 50), upd |-> en[i].ex /\ Chance(Sub(s, 11), 50)]

-----------------------------------------------------------------------------
UsedBy(s) == {s.uses[x].m : x \in 1..Len(s.uses)}
Users(en, j) == {i \in Mods : en[i].ex /\ j \in en[i].deps}
RECURSIVE Reach(_, _)
Reach(en, S) == LET T == S \cup UNION {Users(en, j) : j \in S} IN IF T = S THEN S ELSE Reach(en, T)
Dependents(en, i) == Reach(en, Users(en, i))
RECURSIVE Deep(_, _)
Deep(d, S) == LET T == S \cup UNION {d[j] : j \in S} IN IF T = S THEN S ELSE Deep(d, T)

Offers(en, u) == /\ en[u.m].ex /\ en[u.m].good.k # -1
                 /\ u.w = "f" => en[u.m].good.ty = 0
                 /\ u.w = "g" => en[u.m].good.g
Compiles(en, i, s) ==
  /\ s.bad = 0
  /\ \A x \in 1..Len(s.uses) : Offers(en, s.uses[x])
  /\ i \notin Deep([j \in Mods |-> IF j = i THEN UsedBy(s) ELSE en[j].deps], UsedBy(s))

MarkStale(en, S) == [i \in Mods |-> IF i \in S THEN [en[i] EXCEPT !.stale = TRUE] ELSE en[i]]
\* result of one attempt: [en, fresh]
Attempt(en, i, s) ==
  LET below == MarkStale(en, Dependents(en, i))
      e == [below[i] EXCEPT !.ex = TRUE, !.src = s]
  IN IF ~Compiles(en, i, s) THEN [en |-> [below EXCEPT ![i] = [e EXCEPT !.stale = TRUE, !.err = TRUE]], fresh |-> FALSE]
     ELSE IF \E j \in UsedBy(s) : en[j].stale
     THEN LET e2 == [below EXCEPT ![i] = [e EXCEPT !.stale = TRUE, !.err = FALSE, !.deps = UsedBy(s)]]
          IN [en |-> e2, fresh |-> FALSE]
     ELSE [en |-> [below EXCEPT ![i] = [e EXCEPT !.stale = FALSE, !.err = FALSE, !.deps = UsedBy(s), !.good = s]], fresh |-> TRUE]

Init == /\ seed \in SeedLo..SeedHi /\ t = 1 /\ ph = "submit" /\ ent = [i \in Mods |-> NoEnt] /\ pend = {} /\ cur = [m |-> 0] /\ hit = FALSE

Submit ==
  /\ ph = "submit" /\ t <= Steps
  /\ LET o == Op(seed, t, ent)
         r == Attempt(ent, o.m, o.src) IN
     /\ cur' = o /\ ent' = r.en
     /\ hit' = ~r.en[o.m].err
     /\ pend' = (IF r.fresh THEN {y \in Users(r.en, o.m) : r.en[y].stale} ELSE {})
     /\ (Traced \/ PrintT(ToJson([op |-> seed, t |-> t, o |-> o])))
  /\ ph' = "rebuild" /\ UNCHANGED <<seed, t>>

\* rebuild one of the stale users of what became fresh
Rebuild ==
  /\ ph = "rebuild" /\ pend # {}
  /\ \E y \in pend :
       LET r == Attempt(ent, y, ent[y].src) IN
       /\ ent' = r.en
       /\ pend' = (pend \ {y}) \cup (IF r.fresh THEN {z \in Users(r.en, y) : r.en[z].stale} ELSE {})
  /\ UNCHANGED <<seed, t, ph, cur, hit>>

\* value of f and g of a fresh module
RECURSIVE F(_, _), Sum(_, _)
F(en, i) == en[i].good.k + Sum(en, en[i].good.uses)
Sum(en, us) == IF us = <<>> THEN 0
               ELSE LET u == Head(us) IN
                    (CASE u.w = "f" -> F(en, u.m) [] u.w = "g" -> en[u.m].good.k * 2 + 1 [] u.w = "q" -> en[u.m].good.k + 7 [] OTHER -> en[u.m].good.k + 3)
                    + Sum(en, Tail(us))
Val(en, i) == IF en[i].stale \/ ~en[i].ex THEN -1 ELSE F(en, i)

\* what can be observed of module i
Seen(en, i) == [ex |-> en[i].ex, stale |-> en[i].stale, has |-> en[i].good.k # -1, err |-> en[i].err,
                deps |-> {d \in Mods : d \in en[i].deps}, val |-> Val(en, i)]
Deps(q) == {q[x] : x \in 1..Len(q)}
Agrees(en, o) ==
  \A i \in Mods : LET s == Seen(en, i) b == o.m[i] IN
     /\ s.ex = b.ex
     /\ s.ex => /\ s.stale = b.stale /\ s.has = b.has /\ s.err = b.err /\ s.deps = Deps(b.deps)
                /\ \A x \in 1..Len(b.vals) : b.vals[x] = s.val
                /\ Len(b.vals) > 0 => ~s.stale
\* revisions and versions: an attempt is a new revision of the module, and only of it and of what uses it
Stamps(en, o, b) ==
  \A i \in Mods : (o.m[i].ex /\ b.m[i].ex) =>
     /\ b.m[i].rev <= o.m[i].rev /\ b.m[i].ver <= o.m[i].ver
     /\ i = cur.m => b.m[i].rev < o.m[i].rev
     /\ (i # cur.m /\ i \notin Dependents(en, cur.m)) => b.m[i].rev = o.m[i].rev
     /\ i # cur.m => b.m[i].ver = o.m[i].ver
     /\ i = cur.m => (b.m[i].text = o.m[i].text <=> b.m[i].ver = o.m[i].ver)

Settle ==
  /\ ph = "rebuild" /\ pend = {}
  /\ Traced => LET q == TraceOf(seed) IN
       /\ Agrees(ent, q[t]) /\ q[t].ok = hit
       /\ t > 1 => Stamps(ent, q[t], q[t - 1])
       /\ PrintT(ToJson([seen |-> seed, t |-> t]))
  /\ ph' = "submit" /\ t' = t + 1 /\ UNCHANGED <<seed, ent, pend, cur, hit>>

Next == Submit \/ Rebuild \/ Settle
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Settled == ph = "submit"
\* a fresh module is current: it compiled from its current source, against fresh modules only
FreshIsCurrent == Settled => \A i \in Mods : (ent[i].ex /\ ~ent[i].stale) =>
   ent[i].good = ent[i].src /\ ~ent[i].err /\ ent[i].deps = UsedBy(ent[i].src) /\ \A j \in ent[i].deps : ~ent[j].stale
\* stale for a reason
StaleHasReason == Settled => \A i \in Mods : (ent[i].ex /\ ent[i].stale) => ent[i].err \/ \E j \in ent[i].deps : ent[j].stale
Acyclic == \A i \in Mods : ent[i].ex => i \notin Deep([j \in Mods |-> ent[j].deps], ent[i].deps)
=============================================================================
