--------------------------------- MODULE Coll ---------------------------------
(* Histories of operations on arrays.  An array is the sequence its history defines: four places   *)
(* hold arrays (two variables and two rows of an array of arrays), each step performs one          *)
(* operation of the history of its seed, and what the operation shows is appended to `seen`.       *)
(* Elements are labels 0..5; which element type they stand for is up to the replay.                *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets, Rng2
CONSTANTS SeedLo, SeedHi, Steps
VARIABLES seed, k, v, seen, hist, fail
vars == <<seed, k, v, seen, hist, fail>>

S0(n) == Seed(n)
\* element types by seed: "int", "str", "arr", "own" (instances tracked by the host)
Kind(n) == << "int", "str", "own", "arr", "pair" >>[1 + (n % 5)]
Ordered(n) == Kind(n) \in {"int", "str"}
MaxLen == 14

RECURSIVE Rev(_), Ins(_, _), Srt(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
Ins(x, q) == IF q = <<>> \/ x < Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Ins(x, Tail(q))
Srt(q) == IF q = <<>> THEN <<>> ELSE LET r == Srt(SubSeq(q, 1, Len(q) - 1)) IN Ins(q[Len(q)], r)
At(q, i) == IF i < 0 THEN Len(q) + i + 1 ELSE i + 1           \* position of a signed index
Inside(q, i) == At(q, i) \in 1..Len(q)
Bound(q, i) == LET r == IF i < 0 THEN Len(q) + i ELSE i IN IF r > Len(q) THEN Len(q) ELSE r
Slice(q, m, n) == SubSeq(q, Bound(q, m) + 1, Bound(q, n))
Member(x, q) == \E i \in 1..Len(q) : q[i] = x

-----------------------------------------------------------------------------
Op(o, i, j, x, n, m) == [o |-> o, i |-> i, j |-> j, x |-> x, n |-> n, m |-> m]
\* the operation of step t; s: stream, q: the arrays as they are
Choose(s, q, n) ==
  LET i == 1 + Rnd(Sub(s, 1), 4)
      j == 1 + Rnd(Sub(s, 2), 4)
      x == Rnd(Sub(s, 3), 6)
      l == Len(q[i])
      \* an index that is inside, rarely just outside
      far == Chance(Sub(s, 4), 4)
      idx == IF l = 0 \/ far THEN PickOf(Sub(s, 5), << l, -l - 1, l + 7 >>) ELSE LET r == Rnd(Sub(s, 6), l) IN IF Chance(Sub(s, 7), 40) THEN r - l ELSE r
      bnd(t) == LET r == Rnd(Sub(s, t), 2 * Len(q[j]) + 3) - Len(q[j]) IN IF r < -Len(q[j]) THEN 0 ELSE r
      room == l + Len(q[j]) <= MaxLen
      o == PickW(Sub(s, 8), << << IF l < MaxLen THEN 14 ELSE 0, "app">>, << IF l < MaxLen THEN 12 ELSE 0, "pre">>, <<7, "popb">>, <<9, "popf">>, <<2, "peekb">>, <<2, "peekf">>,
             << IF l = 0 THEN 0 ELSE 8, "get">>, << IF l = 0 THEN 0 ELSE 7, "set">>, <<2, "len">>, <<6, "slice">>, << IF room THEN 5 ELSE 0, "cat">>, <<6, "copy">>,
             <<3, "rev">>, <<3, "revd">>, << IF Ordered(n) THEN 5 ELSE 0, "sort">>, <<2, "has">>, <<3, "eq">>, <<4, "iter">>, << IF 2 * l <= MaxLen THEN 3 ELSE 0, "grow">>,
             <<1, "clr">>, << IF l + 2 <= MaxLen THEN 4 ELSE 0, "byref">>, <<4, "byval">>, <<4, "swap">>, <<2, "rot">>, << IF l < MaxLen THEN 4 ELSE 0, "cap">>,
             << IF l < MaxLen THEN 3 ELSE 0, "lit">>, << IF l < 2 THEN 0 ELSE 4, "exch">>, <<3, "ret">>, << IF l = 0 THEN 0 ELSE 3, "opt">> >>)
  IN CASE o = "slice" -> Op(o, i, j, x, bnd(9), bnd(10))
       [] o = "exch" -> Op(o, i, j, x, Rnd(Sub(s, 11), l), Rnd(Sub(s, 12), l) - l)
       [] OTHER -> Op(o, i, j, x, idx, Rnd(Sub(s, 13), 3))

\* result of an operation: [v, seen, fail]
R(q, see, f) == [v |-> q, seen |-> see, fail |-> f]
Some(x) == << x >>
OOB == "out of bounds"
Apply(op, q) ==
  LET i == op.i j == op.j a == q[i] b == q[j] IN
  CASE op.o = "app" -> R([q EXCEPT ![i] = Append(a, op.x)], <<>>, "")
    [] op.o = "pre" -> R([q EXCEPT ![i] = <<op.x>> \o a], <<>>, "")
    [] op.o = "popb" -> IF a = <<>> THEN R(q, << -1 >>, "") ELSE R([q EXCEPT ![i] = SubSeq(a, 1, Len(a) - 1)], Some(a[Len(a)]), "")
    [] op.o = "popf" -> IF a = <<>> THEN R(q, << -1 >>, "") ELSE R([q EXCEPT ![i] = Tail(a)], Some(Head(a)), "")
    [] op.o = "peekb" -> R(q, IF a = <<>> THEN << -1 >> ELSE Some(a[Len(a)]), "")
    [] op.o = "peekf" -> R(q, IF a = <<>> THEN << -1 >> ELSE Some(Head(a)), "")
    [] op.o = "get" -> IF Inside(a, op.n) THEN R(q, Some(a[At(a, op.n)]), "") ELSE R(q, <<>>, OOB)
    [] op.o = "set" -> IF Inside(a, op.n) THEN R([q EXCEPT ![i] = [a EXCEPT ![At(a, op.n)] = op.x]], <<>>, "") ELSE R(q, <<>>, OOB)
    [] op.o = "len" -> R(q, << Len(a) >>, "")
    [] op.o = "slice" -> R([q EXCEPT ![i] = Slice(b, op.n, op.m)], <<>>, "")
    [] op.o = "cat" -> R([q EXCEPT ![i] = a \o b], <<>>, "")
    [] op.o = "copy" -> R([q EXCEPT ![i] = b], <<>>, "")
    [] op.o = "rev" -> R([q EXCEPT ![i] = Rev(a)], <<>>, "")
    [] op.o = "revd" -> R([q EXCEPT ![i] = Rev(b)], <<>>, "")
    [] op.o = "sort" -> R([q EXCEPT ![i] = Srt(a)], <<>>, "")
    [] op.o = "has" -> R(q, << IF Member(op.x, a) THEN 1 ELSE 0 >>, "")
    [] op.o = "eq" -> R(q, << IF a = b THEN 1 ELSE 0 >>, "")
    [] op.o = "iter" -> R(q, a, "")
    \* iterates over the array as it was
    [] op.o = "grow" -> R([q EXCEPT ![i] = a \o a], <<>>, "")
    [] op.o = "clr" -> R([q EXCEPT ![i] = <<>>], <<>>, "")
    [] op.o = "lit" -> R([q EXCEPT ![i] = <<op.x, 0, op.x>> \o SubSeq(a, 1, 0)], <<>>, "")
    [] op.o = "byref" -> R([q EXCEPT ![i] = <<op.x>> \o Append(a, op.x)], <<>>, "")
    [] op.o = "byval" -> R(q, << Len(a), IF a = <<>> THEN op.x ELSE Head(a) >>, "")
    [] op.o = "ret" -> R([q EXCEPT ![i] = Append(b, op.x)], << Len(b) >>, "")
    [] op.o = "swap" -> R([q EXCEPT ![i] = b, ![j] = a], <<>>, "")
    [] op.o = "rot" -> R([q EXCEPT ![3] = q[4], ![4] = q[3]], <<>>, "")
    [] op.o = "cap" -> R([q EXCEPT ![i] = Append(a, op.x)], << Len(a) >>, "")
    [] op.o = "exch" -> R([q EXCEPT ![i] = [a EXCEPT ![At(a, op.n)] = a[At(a, op.m)], ![At(a, op.m)] = a[At(a, op.n)]]], <<>>, "")
    [] op.o = "opt" -> IF Inside(a, op.n) THEN R([q EXCEPT ![i] = [a EXCEPT ![At(a, op.n)] = op.x]], Some(a[At(a, op.n)]), "") ELSE R(q, <<>>, OOB)

Init == /\ seed \in SeedLo..SeedHi /\ k = 0 /\ v = << <<>>, <<>>, <<>>, <<>> >> /\ seen = <<>> /\ hist = <<>> /\ fail = ""
Step == /\ k < Steps /\ fail = ""
        /\ LET op == Choose(Sub(S0(seed), k + 20), v, seed) r == Apply(op, v) IN
           v' = r.v /\ seen' = seen \o r.seen /\ fail' = r.fail /\ hist' = Append(hist, op)
        /\ k' = k + 1 /\ UNCHANGED seed
Emit == /\ k <= Steps /\ (k = Steps \/ fail # "")
        /\ PrintT(ToJson([seed |-> seed, kind |-> Kind(seed), hist |-> hist, v |-> v, seen |-> seen, fail |-> fail]))
        /\ k' = Steps + 1 /\ UNCHANGED <<seed, v, seen, hist, fail>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* Laws of the operations, checked in every reached state
Laws == \A i \in 1..4 : LET a == v[i] IN
  /\ Rev(Rev(a)) = a /\ Len(a) <= MaxLen
  /\ Slice(a, 0, Len(a)) = a
  /\ \A n \in -Len(a)..Len(a) : Slice(a, 0, n) \o Slice(a, n, Len(a)) = a
  /\ LET s == Srt(a) IN Len(s) = Len(a) /\ (\A n \in 1..(Len(s) - 1) : s[n] <= s[n + 1])
                        /\ \A x \in 0..5 : Cardinality({n \in 1..Len(a) : a[n] = x}) = Cardinality({n \in 1..Len(s) : s[n] = x})
\* a failing operation changes nothing
FailKeeps == [][fail' # "" /\ fail = "" => v' = v /\ seen' = seen]_vars
=============================================================================
