------------------------------- MODULE Endless -------------------------------
(* Programs that never end: a ring of functions, each reaching the next one through some kind of call  *)
(* from some position, or ending in a loop.  No resource limit is part of the program's meaning, so     *)
(* the specified behaviour is infinite: the log grows for ever and nothing owned is ever released.      *)
(* A run under limits is a beginning of it, cut by a violation of the kind that the repeated construct  *)
(* spends: call depth for a ring of calls, fuel for a loop.                                             *)
EXTENDS Integers, Sequences, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi, Laps
VARIABLES seed, p, at, turns, log, live
vars == <<seed, p, at, turns, log, live>>

Calls == << <<3, "direct">>, <<3, "closure">>, <<2, "nested">>, <<3, "value">>, <<3, "hof">>, <<2, "map">>, <<3, "method">>, <<2, "generic">>,
            <<2, "field">>, <<2, "dyn">> >>
\* semantic operations of values: pure
Pure == << <<3, "eq">>, <<2, "show">>, <<3, "drop">>, <<2, "clone">>, <<2, "direct">>, <<2, "closure">>, <<1, "hof">> >>
Spots == << <<3, "tail">>, <<3, "operand">>, <<3, "then">>, <<2, "else">>, <<2, "match">>, <<2, "block">>, <<3, "owned">>, <<2, "array">>, <<2, "for">>,
            <<2, "cond">>, <<2, "arg">>, <<1, "loop">> >>

Node(s, pure) == [call |-> PickW(Sub(s, 1), IF pure THEN Pure ELSE Calls), spot |-> PickW(Sub(s, 2), Spots), l |-> 1 + Rnd(Sub(s, 3), 9),
                  own |-> ~pure /\ Chance(Sub(s, 4), 30)]
Gen(n) == LET s == Seed(n)
              pure == Chance(Sub(s, 1), 25)
              k == 1 + Rnd(Sub(s, 2), 3)
              spin == Chance(Sub(s, 3), 25)
          IN [nodes |-> [i \in 1..k |-> Node(Sub(s, 10 + i), pure)], pure |-> pure, spin |-> IF spin THEN 1 + Rnd(Sub(s, 4), 4) ELSE 0,
              back |-> 1 + Rnd(Sub(s, 5), k)]

Init == seed \in SeedLo..SeedHi /\ p = <<>> /\ at = 0 /\ turns = 0 /\ log = <<>> /\ live = 0
Load == at = 0 /\ p' = Gen(seed) /\ at' = 1 /\ PrintT(ToJson([prog |-> seed, p |-> Gen(seed)])) /\ UNCHANGED <<seed, turns, log, live>>

\* entering node i: its event, and the instance it owns while the rest of the ring runs
Enter(i) == LET d == p.nodes[i] IN
  /\ log' = log \o (IF p.pure THEN <<>> ELSE <<"L" \o ToString(d.l)>>) \o (IF d.own THEN <<"N" \o ToString(d.l)>> ELSE <<>>)
  /\ live' = live + (IF d.own THEN 1 ELSE 0)
Last == Len(p.nodes)
Go == /\ at > 0 /\ at \in 1..Last /\ turns < Laps /\ Enter(at) /\ UNCHANGED <<seed, p>>
      /\ IF at < Last THEN at' = at + 1 /\ UNCHANGED turns
         ELSE IF p.spin > 0 THEN at' = Last + 1 /\ UNCHANGED turns ELSE at' = p.back /\ turns' = turns + 1
Spin == /\ at > 0 /\ at = Last + 1 /\ turns < Laps /\ at' = at /\ turns' = turns + 1 /\ UNCHANGED <<seed, p, live>>
        /\ log' = (IF p.pure THEN log ELSE Append(log, "L0"))
Done == /\ at > 0 /\ turns = Laps /\ PrintT(ToJson([run |-> seed, log |-> log, kind |-> IF p.spin > 0 THEN "fuel" ELSE "depth"]))
        /\ turns' = turns + 1 /\ UNCHANGED <<seed, p, at, log, live>>
Next == Load \/ Go \/ Spin \/ Done
Spec == Init /\ [][Next]_vars
\* the program never stops by itself, and what it owns stays owned
NeverEnds == turns >= Laps \/ ENABLED (Load \/ Go \/ Spin)
Keeps == [][live' >= live]_vars
View == <<seed, at, turns, Len(log)>>
=============================================================================
