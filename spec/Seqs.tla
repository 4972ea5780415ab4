--------------------------------- MODULE Seqs ---------------------------------
(* Iterators and sequence functions.  A pipeline is a source, adaptors and a consumer.  An         *)
(* iterator is pulled one element at a time; a pull of an adaptor pulls what it adapts, and calls   *)
(* its function, only as far as the element asked for needs.  Adaptors of arrays are eager.         *)
(* Elements are integers.  What is logged: every call of a function argument, every element shown. *)
(* Checked against the definition on whole sequences (Whole), which knows nothing of pulling.      *)
EXTENDS Integers, Sequences, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi
VARIABLES seed, p, k, st, ph
vars == <<seed, p, k, st, ph>>

Min2(a, b) == IF a < b THEN a ELSE b
-----------------------------------------------------------------------------
\* Function arguments: [o, a, b, t]; t: the call is logged.  Value of a call: [x, fail]
Pred(f, x) == CASE f.o = "lt" -> x < f.a [] f.o = "ge" -> x >= f.a [] f.o = "ne" -> x # f.a [] f.o = "even" -> x % 2 = 0 [] f.o = "no" -> FALSE [] OTHER -> TRUE
Fn(f, x) == CASE f.o = "aff" -> x * f.a + f.b [] f.o = "neg" -> f.b - x [] f.o = "mod" -> x % f.a [] OTHER -> x
\* "div" fails at b
Fails(f, x) == f.fl /\ x = f.b
Called(f, x) == IF f.t THEN << <<"T", x>> >> ELSE <<>>

-----------------------------------------------------------------------------
\* Iterators.  A pull gives [ok: whether there is an element, x, it, log, fail]
P(ok, x, it, lg, fail) == [ok |-> ok, x |-> x, it |-> it, lg |-> lg, fail |-> fail]
RECURSIVE Pull(_), PullF(_, _), PullSkip(_, _)
Pull(it) ==
  CASE it.k = "arr" -> IF it.i <= Len(it.q) THEN P(TRUE, it.q[it.i], [it EXCEPT !.i = @ + 1], <<>>, FALSE) ELSE P(FALSE, 0, it, <<>>, FALSE)
    [] it.k = "rng" -> LET up == it.lo <= it.hi e == IF it.inc THEN (IF up THEN it.hi + 1 ELSE it.hi - 1) ELSE it.hi IN
                       IF IF up THEN it.i < e ELSE it.i > e THEN P(TRUE, it.i, [it EXCEPT !.i = IF up THEN @ + 1 ELSE @ - 1], <<>>, FALSE) ELSE P(FALSE, 0, it, <<>>, FALSE)
    [] it.k = "map" -> LET r == Pull(it.s) IN IF ~r.ok \/ r.fail THEN P(r.ok, 0, [it EXCEPT !.s = r.it], r.lg, r.fail)
                       ELSE P(TRUE, Fn(it.f, r.x), [it EXCEPT !.s = r.it], r.lg \o Called(it.f, r.x), Fails(it.f, r.x))
    [] it.k \in {"filter", "fmap"} -> PullF(it, <<>>)
    [] it.k = "enum" -> LET r == Pull(it.s) IN P(r.ok, r.x * 10 + it.n, [it EXCEPT !.s = r.it, !.n = IF r.ok THEN @ + 1 ELSE @], r.lg, r.fail)
    [] it.k = "take" -> IF it.n <= 0 THEN P(FALSE, 0, it, <<>>, FALSE)
                        ELSE LET r == Pull(it.s) IN P(r.ok, r.x, [it EXCEPT !.s = r.it, !.n = IF r.ok THEN @ - 1 ELSE @], r.lg, r.fail)
    [] it.k = "skip" -> PullSkip(it, <<>>)
    [] it.k = "zip" -> LET r == Pull(it.s) IN IF ~r.ok \/ r.fail THEN P(r.ok, 0, [it EXCEPT !.s = r.it], r.lg, r.fail)
                       ELSE LET q == Pull(it.s2) IN P(q.ok, r.x * 7 + q.x, [it EXCEPT !.s = r.it, !.s2 = q.it], r.lg \o q.lg, q.fail)
    [] it.k = "chain" -> IF it.n = 1 THEN LET q == Pull(it.s2) IN P(q.ok, q.x, [it EXCEPT !.s2 = q.it], q.lg, q.fail)
                         ELSE LET r == Pull(it.s) IN IF r.ok \/ r.fail THEN P(r.ok, r.x, [it EXCEPT !.s = r.it], r.lg, r.fail)
                              ELSE LET q == Pull(it.s2) IN P(q.ok, q.x, [it EXCEPT !.s = r.it, !.s2 = q.it, !.n = 1], r.lg \o q.lg, q.fail)
PullF(it, lg) == LET r == Pull(it.s) i2 == [it EXCEPT !.s = r.it] l2 == lg \o r.lg IN
  IF ~r.ok \/ r.fail THEN P(r.ok, 0, i2, l2, r.fail)
  ELSE LET l3 == l2 \o Called(it.f, r.x) IN
       IF Fails(it.f, r.x) THEN P(TRUE, 0, i2, l3, TRUE)
       ELSE IF Pred(it.f, r.x) THEN P(TRUE, IF it.k = "fmap" THEN r.x * 2 + 1 ELSE r.x, i2, l3, FALSE) ELSE PullF(i2, l3)
PullSkip(it, lg) == LET r == Pull(it.s) i2 == [it EXCEPT !.s = r.it] l2 == lg \o r.lg IN
  IF ~r.ok \/ r.fail THEN P(r.ok, 0, i2, l2, r.fail)
  ELSE IF it.n > 0 THEN PullSkip([i2 EXCEPT !.n = @ - 1], l2) ELSE P(TRUE, r.x, i2, l2, FALSE)
\* pulled until it ends: [q, it, lg, fail]
RECURSIVE Drain(_, _, _)
Drain(it, q, lg) == LET r == Pull(it) IN IF ~r.ok THEN [q |-> q, it |-> r.it, lg |-> lg \o r.lg, fail |-> FALSE]
                    ELSE IF r.fail THEN [q |-> q, it |-> r.it, lg |-> lg \o r.lg, fail |-> TRUE] ELSE Drain(r.it, Append(q, r.x), lg \o r.lg)

-----------------------------------------------------------------------------
\* The same on whole sequences, without failures and calls
RECURSIVE Whole(_), MapQ(_, _), Keep(_, _), Count(_, _, _)
MapQ(f, q) == IF q = <<>> THEN <<>> ELSE <<Fn(f, Head(q))>> \o MapQ(f, Tail(q))
Keep(f, q) == SelectSeq(q, LAMBDA x : Pred(f, x))
Count(a, e, d) == IF a = e THEN <<>> ELSE <<a>> \o Count(a + d, e, d)
Whole(it) ==
  CASE it.k = "arr" -> SubSeq(it.q, it.i, Len(it.q))
    [] it.k = "rng" -> LET d == IF it.lo <= it.hi THEN 1 ELSE -1 IN Count(it.i, IF it.inc THEN it.hi + d ELSE it.hi, d)
    [] it.k = "map" -> MapQ(it.f, Whole(it.s))
    [] it.k = "filter" -> Keep(it.f, Whole(it.s))
    [] it.k = "fmap" -> LET q == Keep(it.f, Whole(it.s)) IN [i \in 1..Len(q) |-> q[i] * 2 + 1]
    [] it.k = "enum" -> LET q == Whole(it.s) IN [i \in 1..Len(q) |-> q[i] * 10 + it.n + i - 1]
    [] it.k = "take" -> LET q == Whole(it.s) IN SubSeq(q, 1, Min2(Len(q), it.n))
    [] it.k = "skip" -> LET q == Whole(it.s) IN SubSeq(q, (IF it.n < 0 THEN 0 ELSE it.n) + 1, Len(q))
    [] it.k = "zip" -> LET a == Whole(it.s) b == Whole(it.s2) IN [i \in 1..Min2(Len(a), Len(b)) |-> a[i] * 7 + b[i]]
    [] it.k = "chain" -> (IF it.n = 1 THEN <<>> ELSE Whole(it.s)) \o Whole(it.s2)

-----------------------------------------------------------------------------
\* Pipelines
Fun(s, dm) == [o |-> PickOf(Sub(s, 1), dm), a |-> 1 + Rnd(Sub(s, 2), 4), b |-> Rnd(Sub(s, 3), 7) - 1, t |-> Chance(Sub(s, 4), 75), fl |-> Chance(Sub(s, 5), 7)]
MapFun(s) == Fun(s, <<"aff", "aff", "neg", "mod">>)
PredFun(s) == Fun(s, <<"lt", "ge", "ne", "even", "yes", "no">>)
RECURSIVE Some(_, _)
Some(s, n) == IF n = 0 THEN <<>> ELSE << Rnd(Sub(s, n), 9) - 2 >> \o Some(s, n - 1)
Src(s) == IF Chance(Sub(s, 1), 65) THEN [k |-> "arr", q |-> Some(Sub(s, 2), Rnd(Sub(s, 3), 7)), i |-> 1]
          ELSE LET lo == Rnd(Sub(s, 4), 6) - 1 hi == IF Chance(Sub(s, 5), 70) THEN lo + Rnd(Sub(s, 6), 6) ELSE lo - Rnd(Sub(s, 7), 5) IN
               [k |-> "rng", lo |-> lo, hi |-> hi, i |-> lo, inc |-> Chance(Sub(s, 8), 50)]
Stage(s) == LET o == PickOf(Sub(s, 1), <<"map", "map", "filter", "filter", "fmap", "enum", "take", "take", "skip", "zip", "chain", "iter", "collect">>) IN
  [o |-> o, f |-> IF o = "map" THEN MapFun(Sub(s, 2)) ELSE PredFun(Sub(s, 2)), n |-> Rnd(Sub(s, 3), 7) - 1,
   src |-> IF o \in {"zip", "chain"} THEN Src(Sub(s, 4)) ELSE [k |-> "arr", q |-> <<>>, i |-> 1],
   \* the other source may be adapted as well
   g |-> IF Chance(Sub(s, 6), 40) THEN <<MapFun(Sub(s, 7))>> ELSE <<>>]
Consumers == <<"fold", "fold", "for", "forbreak", "collect", "count", "sum", "any", "all", "find", "position", "min", "max", "contains", "next2", "copy", "twice", "tryfold", "sortby", "sortdesc", "split", "splitseq", "join", "len">>
\* Quiet pipelines: the functions given to adaptors neither log nor fail (those given to consumers may)
Hush(f) == [f EXCEPT !.t = FALSE, !.fl = FALSE]
Quiet(g) == [g EXCEPT !.f = Hush(@), !.g = [i \in DOMAIN @ |-> Hush(@[i])]]
Pipe(n) == LET s == Seed(n) quiet == n % 2 = 0 IN
  [quiet |-> quiet, src |-> Src(Sub(s, 1)), stages |-> [i \in 1..Rnd(Sub(s, 2), 5) |-> IF quiet THEN Quiet(Stage(Sub(s, 10 + i))) ELSE Stage(Sub(s, 10 + i))],
   end |-> PickOf(Sub(s, 3), Consumers), f |-> PredFun(Sub(s, 4)), n |-> Rnd(Sub(s, 5), 5), x |-> Rnd(Sub(s, 6), 8) - 1, y |-> Rnd(Sub(s, 7), 3)]

-----------------------------------------------------------------------------
\* Building the pipeline stage by stage: the current value [it, eager: it is an array], log
Eager(q) == [k |-> "arr", q |-> q, i |-> 1]
Apply(g, cur) ==
  LET base == [k |-> g.o, s |-> cur.it, f |-> g.f, n |-> g.n, s2 |-> IF g.g = <<>> THEN g.src ELSE [k |-> "map", s |-> g.src, f |-> g.g[1]]] IN
  CASE g.o \in {"map", "filter", "fmap"} ->
         IF cur.eager THEN LET d == Drain(base, <<>>, <<>>) IN [it |-> Eager(d.q), eager |-> TRUE, lg |-> d.lg, fail |-> d.fail]
         ELSE [it |-> base, eager |-> FALSE, lg |-> <<>>, fail |-> FALSE]
    [] g.o = "iter" -> [it |-> cur.it, eager |-> FALSE, lg |-> <<>>, fail |-> FALSE]
    [] g.o = "collect" -> LET d == Drain(cur.it, <<>>, <<>>) IN [it |-> Eager(d.q), eager |-> TRUE, lg |-> d.lg, fail |-> d.fail]
    [] g.o = "enum" -> [it |-> [base EXCEPT !.n = 0], eager |-> FALSE, lg |-> <<>>, fail |-> FALSE]
    [] g.o = "zip" \/ g.o = "chain" ->
         \* an adapted array is computed first
         IF g.g # <<>> /\ g.src.k = "arr" THEN LET d == Drain(base.s2, <<>>, <<>>) IN [it |-> [base EXCEPT !.s2 = Eager(d.q), !.n = 0], eager |-> FALSE, lg |-> d.lg, fail |-> d.fail]
         ELSE [it |-> [base EXCEPT !.n = 0], eager |-> FALSE, lg |-> <<>>, fail |-> FALSE]
    [] OTHER -> [it |-> base, eager |-> FALSE, lg |-> <<>>, fail |-> FALSE]

L(x) == << <<"L", x>> >>
\* sequence functions of whole arrays
Le(m, a, b) == IF m = "by" THEN a % 3 <= b % 3 ELSE a >= b
RECURSIVE InsBy(_, _, _), SortBy(_, _), Shown(_), SplitAt(_, _, _, _), JoinQ(_, _), Flat(_)
InsBy(x, q, m) == IF q = <<>> THEN <<x>> ELSE IF Le(m, x, Head(q)) THEN <<x>> \o q ELSE <<Head(q)>> \o InsBy(x, Tail(q), m)
SortBy(q, m) == IF q = <<>> THEN <<>> ELSE InsBy(Head(q), SortBy(Tail(q), m), m)
Shown(q) == IF q = <<>> THEN <<>> ELSE L(Head(q)) \o Shown(Tail(q))
\* parts of q around sep; cur: the part being read
SplitAt(q, sep, cur, parts) == IF Len(q) < Len(sep) \/ q = <<>> THEN Append(parts, cur \o q)
                               ELSE IF SubSeq(q, 1, Len(sep)) = sep THEN SplitAt(SubSeq(q, Len(sep) + 1, Len(q)), sep, <<>>, Append(parts, cur))
                               ELSE SplitAt(Tail(q), sep, Append(cur, Head(q)), parts)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE L(100 + Len(Head(ps))) \o Shown(Head(ps)) \o Flat(Tail(ps))
JoinQ(ps, sep) == IF Len(ps) = 0 THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o JoinQ(Tail(ps), sep)

\* One pull of the consumer.  st: [it, acc, n, lg, fail, res: "" while running, x]
Whole1 == {"sortby", "sortdesc", "split", "splitseq", "join", "len"}
Fin(s, lg) == [s EXCEPT !.lg = @ \o lg, !.res = "done"]
Fail(s, lg) == [s EXCEPT !.lg = @ \o lg, !.res = "fail"]
SumQ(q) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN 0 ELSE q[i] + go(i - 1) IN go(Len(q))
Consume(s) ==
  LET r == Pull(s.it)
      go == [s EXCEPT !.it = r.it, !.lg = @ \o r.lg, !.n = @ + 1, !.acc = Append(@, r.x)]
      f == p.f  call == Called(f, r.x)
  IN
  IF p.end \in Whole1 THEN
    LET d == Drain(s.it, <<>>, <<>>) q == d.q IN
    IF d.fail THEN Fail(s, d.lg) ELSE
    Fin(s, d.lg \o
      CASE p.end = "sortby" -> Shown(SortBy(q, "by"))
        [] p.end = "sortdesc" -> Shown(SortBy(q, "desc"))
        [] p.end = "split" -> Flat(SplitAt(q, <<p.x>>, <<>>, <<>>))
        [] p.end = "splitseq" -> Flat(SplitAt(q, <<p.x, p.x>>, <<>>, <<>>))
        [] p.end = "join" -> Shown(JoinQ(<< q, <<1>>, q >>, <<p.x, 7>>))
        [] OTHER -> L(Len(q)))
  ELSE IF p.end = "next2" THEN  \* asked for n + 1 elements, past the end as well
    IF r.fail THEN Fail(s, r.lg) ELSE
    LET g2 == [s EXCEPT !.it = r.it, !.lg = @ \o r.lg \o L(IF r.ok THEN r.x ELSE -99), !.n = @ + 1] IN IF s.n >= p.n THEN [g2 EXCEPT !.res = "done"] ELSE g2
  ELSE IF r.fail THEN Fail(s, r.lg)
  ELSE IF ~r.ok THEN
    CASE p.end = "copy" -> IF s.ph = 1 THEN [s EXCEPT !.it = s.keep, !.ph = 0, !.lg = @ \o r.lg \o L(77)] ELSE Fin(s, r.lg)
      [] p.end = "twice" -> IF s.ph = 1 THEN [s EXCEPT !.it = s.keep, !.ph = 0, !.acc = <<>>, !.lg = @ \o r.lg \o L(SumQ(s.acc))] ELSE Fin(s, r.lg \o L(SumQ(s.acc)))
      [] OTHER -> Fin(s, r.lg \o
        CASE p.end \in {"fold", "for"} -> L(SumQ(s.acc)) [] p.end = "forbreak" -> L(-5) [] p.end = "collect" -> Shown(s.acc) [] p.end = "count" -> L(s.n) [] p.end = "sum" -> L(SumQ(s.acc))
          [] p.end = "any" -> L(0) [] p.end = "all" -> L(1) [] p.end \in {"find", "position"} -> L(-99) [] p.end = "contains" -> L(0) [] p.end = "tryfold" -> L(SumQ(s.acc))
          [] p.end \in {"min", "max"} -> IF s.acc = <<>> THEN << <<"P", 0>> >>
               ELSE L(CHOOSE x \in {s.acc[i] : i \in 1..Len(s.acc)} : \A i \in 1..Len(s.acc) : IF p.end = "min" THEN x <= s.acc[i] ELSE x >= s.acc[i]))
  ELSE
    CASE p.end \in {"fold", "for"} -> [go EXCEPT !.lg = @ \o L(r.x)]
      [] p.end = "copy" /\ s.ph = 1 -> IF s.n >= p.n THEN [go EXCEPT !.it = s.keep, !.ph = 0, !.lg = @ \o L(77)] ELSE [go EXCEPT !.lg = @ \o L(r.x)]
      [] p.end = "copy" -> [go EXCEPT !.lg = @ \o L(r.x)]
      [] p.end = "forbreak" -> IF s.n >= p.n THEN Fin(s, r.lg \o L(r.x)) ELSE [go EXCEPT !.lg = @ \o L(r.x)]
      [] p.end = "contains" -> IF r.x = p.x THEN Fin(s, r.lg \o L(1)) ELSE go
      [] p.end \in {"any", "find", "position", "all", "tryfold"} ->
           IF Fails(f, r.x) THEN Fail(s, r.lg \o call)
           ELSE IF Pred(f, r.x) = (p.end # "all" /\ p.end # "tryfold")
                THEN Fin(s, r.lg \o call \o L(CASE p.end = "any" -> 1 [] p.end = "all" -> 0 [] p.end = "find" -> r.x [] p.end = "position" -> s.n [] OTHER -> -98))
                ELSE [go EXCEPT !.lg = @ \o call]
      [] OTHER -> go

Start(n) == [it |-> Pipe(n).src, eager |-> Pipe(n).src.k = "arr", lg |-> <<>>, fail |-> FALSE]
Init == seed \in SeedLo..SeedHi /\ p = Pipe(seed) /\ k = 0 /\ st = Start(seed) /\ ph = "build"
Build == /\ ph = "build" /\ k < Len(p.stages) /\ ~st.fail
         /\ LET c == Apply(p.stages[k + 1], st) IN st' = [c EXCEPT !.lg = st.lg \o @]
         /\ k' = k + 1 /\ UNCHANGED <<seed, p, ph>>
Open == /\ ph = "build" /\ (k = Len(p.stages) \/ st.fail)
        /\ st' = [it |-> st.it, keep |-> st.it, acc |-> <<>>, n |-> 0, lg |-> st.lg, res |-> IF st.fail THEN "fail" ELSE "", ph |-> 1]
        /\ ph' = "pull" /\ UNCHANGED <<seed, p, k>>
Take1 == ph = "pull" /\ st.res = "" /\ st' = Consume(st) /\ UNCHANGED <<seed, p, k, ph>>
Emit == /\ ph = "pull" /\ st.res # "" /\ PrintT(ToJson([seed |-> seed, p |-> p, lg |-> st.lg, res |-> st.res]))
        /\ ph' = "end" /\ UNCHANGED <<seed, p, k, st>>
Next == Build \/ Open \/ Take1 \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* pulling one by one gives what the definition on whole sequences says
Agree == ph = "pull" => LET d == Drain(st.it, <<>>, <<>>) IN ~d.fail => d.q = Whole(st.it)
\* an iterator that has ended stays at its end
Ended == ph = "pull" => LET d == Drain(st.it, <<>>, <<>>) IN ~d.fail => ~Pull(d.it).ok
=============================================================================
