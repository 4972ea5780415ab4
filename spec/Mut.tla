--------------------------------- MODULE Mut ---------------------------------
(***************************************************************************)
(* Mutability and overlap: which programs may change what.                  *)
(*                                                                          *)
(* A seeded module of functions, whose parameters are annotated as mutable, *)
(* annotated as values, or not annotated, with bodies that assign to places *)
(* and pass them to each other.  Each use of a place as mutable is a demand *)
(* on the variable it starts from, under the condition that the parameter   *)
(* it is passed to is mutable.  The machine adds one variable at a time to  *)
(* the set M of variables without annotation that are demanded, in every    *)
(* order; when none is left, the module is accepted when no demand is made  *)
(* on an immutable variable or a temporary value and no call gets two       *)
(* overlapping places as mutable.  TLC checks that all orders end with the  *)
(* same M, the least that is closed under the demands.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi
VARIABLES seed, prog, M, done
vars == <<seed, prog, M, done>>
N(k, v, p, c) == [k |-> k, v |-> v, p |-> p, c |-> c]
\* variables: [id, ty, mk] with mk "mut" (let mut, &mut), "inf" (parameter of a function or lambda, not annotated), "imm" (all others)
Var(id, ty, mk) == [id |-> id, ty |-> ty, mk |-> mk]
NoVar == Var(0, "I", "imm")
Types == << <<6, "I">>, <<3, "T">>, <<3, "A">>, <<3, "B">> >>
\* places: [v, path], parts: <<"p", i>> (component), <<"x", i>> (literal index), <<"d", 0>> (computed index), <<"n", 0>> (literal negative index)
Place(v, path) == [v |-> v, path |-> path]
Ix(s) == PickW(s, << <<4, <<"x", 0>> >>, <<4, <<"x", 1>> >>, <<1, <<"d", 0>> >>, <<1, <<"n", 0>> >> >>)
Pj(s) == <<"p", Rnd(s, 2)>>
\* ways from a variable of type a to a place of type b, for seed s; <<"no">> when there is none
Way(s, a, b) ==
  CASE a = b -> <<>>
    [] a = "T" /\ b = "I" -> <<Pj(Sub(s, 1))>>
    [] a = "A" /\ b = "I" -> <<Ix(Sub(s, 1))>>
    [] a = "B" /\ b = "T" -> <<Ix(Sub(s, 1))>>
    [] a = "B" /\ b = "I" -> <<Ix(Sub(s, 1)), Pj(Sub(s, 2))>>
    [] OTHER -> << <<"no", 0>> >>
HasWay(a, b) == a = b \/ (b = "I" /\ a \in {"T", "A", "B"}) \/ (a = "B" /\ b = "T")
Cands(sc, ty, ok(_)) == SelectSeq(sc, LAMBDA v : HasWay(v.ty, ty) /\ ok(v))
AnyVar(v) == TRUE
\* a place of type ty; a variable that demands can be made on is likelier
PlaceOf(s, sc, ty, ok(_)) ==
  LET cs == Cands(sc, ty, ok) ms == SelectSeq(cs, LAMBDA v : v.mk # "imm")
      from == IF ms # <<>> /\ Chance(Sub(s, 1), 97) THEN ms ELSE cs IN
  IF cs = <<>> THEN <<>> ELSE LET v == PickOf(Sub(s, 2), from) IN <<Place(v, Way(Sub(s, 3), v.ty, ty))>>

GenFun(s, f) == LET n == 1 + Rnd(Sub(s, 1), 3) IN
  [i \in 1..n |-> Var(f * 10 + i, PickW(Sub(s, 10 + i), Types), PickW(Sub(s, 20 + i), << <<6, "inf">>, <<1, "mut">>, <<1, "imm">> >>))]
RECURSIVE GenBlk(_, _, _, _, _, _)
\* funs: the parameters of all functions; b: number variables of this block are made from
Lit == N("lit", NoVar, <<>>, <<>>)
Arg(s, sc, pv) == LET pl == PlaceOf(Sub(s, 1), sc, pv.ty, AnyVar) IN IF pl = <<>> \/ Chance(Sub(s, 2), IF pv.mk = "imm" THEN 40 ELSE 1) THEN Lit ELSE N("at", pl[1].v, pl[1].path, <<>>)
GenStmt(s, funs, sc, b, dp) ==
  LET w == PickW(Sub(s, 1), << <<5, "set">>, <<2, "op">>, <<9, "call">>, <<2, "app">>, <<3, "let">>, <<2, "for">>, <<2, "if">>, <<2, "match">>, <<2, "lam">>, <<2, "cap">> >>)
      ty == PickW(Sub(s, 2), Types)
      pl == PlaceOf(Sub(s, 3), sc, ty, AnyVar) pI == PlaceOf(Sub(s, 3), sc, "I", AnyVar) pA == PlaceOf(Sub(s, 3), sc, "A", AnyVar)
      \* what is passed to a function value is a whole variable, not a parameter without annotation (its mutability is not inferred through those)
      pv == PlaceOf(Sub(s, 3), sc, ty, LAMBDA v : v.mk # "inf" /\ v.ty = ty)
      sub(k, v, i, sc2) == N(k, v, <<>>, GenBlk(Sub(s, 4 + i), funs, sc2, b * 10 + i, dp - 1, 1 + Rnd(Sub(s, 8 + i), 2)))
  IN CASE w = "set" /\ pl # <<>> -> N("set", pl[1].v, pl[1].path, <<>>)
       [] w = "op" /\ pI # <<>> -> N("op", pI[1].v, pI[1].path, <<>>)
       [] w = "app" /\ pA # <<>> -> N("app", pA[1].v, pA[1].path, <<>>)
       [] w = "let" /\ pl # <<>> -> N("let", Var(b, ty, IF Chance(Sub(s, 5), 60) THEN "mut" ELSE "imm"), pl[1].path, <<N("at", pl[1].v, pl[1].path, <<>>)>>)
       [] w = "cap" /\ pI # <<>> -> N("cap", pI[1].v, pI[1].path, <<>>)
       [] w = "for" /\ dp > 0 -> LET v == Var(b, "I", "imm") IN sub("for", v, 1, Append(sc, v))
       [] w = "if" /\ dp > 0 -> N("if", NoVar, <<>>, <<sub("blk", NoVar, 1, sc), sub("blk", NoVar, 2, sc)>>)
       [] w = "match" /\ dp > 0 /\ pI # <<>> -> LET v == Var(b, "I", "imm") IN N("match", v, <<>>, <<N("at", pI[1].v, pI[1].path, <<>>), sub("blk", NoVar, 1, Append(sc, v))>>)
       [] w = "lam" /\ dp > 0 /\ pv # <<>> -> LET v == Var(b, ty, "inf") IN N("lam", v, <<>>, <<N("at", pv[1].v, pv[1].path, <<>>), sub("blk", NoVar, 1, <<v>>)>>)
       [] OTHER -> LET j == 1 + Rnd(Sub(s, 6), Len(funs)) IN N("call", NoVar, <<j>>, [i \in 1..Len(funs[j]) |-> Arg(Sub(s, 30 + i), sc, funs[j][i])])
\* variables made by a let are in scope from then on
GenBlk(s, funs, sc, b, dp, n) ==
  IF n = 0 THEN <<>>
  ELSE LET st == GenStmt(Sub(s, 1), funs, sc, b * 10 + n, dp) IN <<st>> \o GenBlk(Sub(s, 2), funs, IF st.k = "let" THEN Append(sc, st.v) ELSE sc, b, dp, n - 1)
GenProg(n) == LET s == Seed(n) k == 2 + Rnd(Sub(s, 1), 3) funs == [f \in 1..k |-> GenFun(Sub(s, 10 + f), f)] IN
  [funs |-> funs, bodies |-> [f \in 1..k |-> GenBlk(Sub(s, 20 + f), funs, funs[f], 100 + f, 2, 1 + Rnd(Sub(s, 30 + f), 3))]]

-----------------------------------------------------------------------------
\* Demands: variable v (with a temporary: NoVar, id 0) must be mutable when variable `at` is (0: always, -1: never)
At(pv) == IF pv.mk = "mut" THEN 0 ELSE IF pv.mk = "imm" THEN -1 ELSE pv.id
Dem(v, at) == [v |-> v, at |-> at]
RECURSIVE Demands(_, _), DemandsB(_, _)
DemandsB(funs, b) == UNION {Demands(funs, b[i]) : i \in 1..Len(b)}
Demands(funs, st) ==
  CASE st.k \in {"set", "op", "app", "cap"} -> {Dem(st.v, 0)}
    [] st.k = "call" -> {Dem(st.c[i].v, At(funs[st.p[1]][i])) : i \in 1..Len(st.c)}
    [] st.k = "lam" -> {Dem(st.c[1].v, st.v.id)} \cup DemandsB(funs, st.c[2].c)
    [] st.k = "match" -> DemandsB(funs, st.c[2].c)
    [] st.k \in {"if"} -> DemandsB(funs, st.c[1].c) \cup DemandsB(funs, st.c[2].c)
    [] st.k \in {"for", "blk"} -> DemandsB(funs, st.c)
    [] OTHER -> {}
AllDemands(p) == UNION {DemandsB(p.funs, p.bodies[f]) : f \in 1..Len(p.funs)}
Active(d, m) == d.at = 0 \/ d.at \in m
\* do two paths lead to a common place: "no", "yes", or "open" after a computed index where it is not known
RECURSIVE Meet(_, _, _)
Meet(a, b, dyn) == IF a = <<>> \/ b = <<>> THEN IF dyn THEN "dyn" ELSE "yes"
  ELSE IF Head(a)[1] \in {"d", "n"} \/ Head(b)[1] \in {"d", "n"} THEN Meet(Tail(a), Tail(b), TRUE)
  ELSE IF Head(a) # Head(b) THEN IF dyn THEN "open" ELSE "no" ELSE Meet(Tail(a), Tail(b), dyn)
RECURSIVE Calls(_), CallsB(_)
CallsB(b) == UNION {Calls(b[i]) : i \in 1..Len(b)}
Calls(st) == CASE st.k = "call" -> {st} [] st.k \in {"match", "lam"} -> CallsB(st.c[2].c) [] st.k = "if" -> CallsB(st.c[1].c) \cup CallsB(st.c[2].c)
               [] st.k \in {"for", "blk"} -> CallsB(st.c) [] OTHER -> {}
AllCalls(p) == UNION {CallsB(p.bodies[f]) : f \in 1..Len(p.funs)}
MutArg(p, m, c, i) == LET a == At(p.funs[c.p[1]][i]) IN c.c[i].k = "at" /\ (a = 0 \/ a \in m)
Meets(p, m) == UNION {{Meet(c.c[ij[1]].p, c.c[ij[2]].p, FALSE) : ij \in {x \in (1..Len(c.c)) \X (1..Len(c.c)) :
                  x[1] < x[2] /\ MutArg(p, m, c, x[1]) /\ MutArg(p, m, c, x[2]) /\ c.c[x[1]].v.id = c.c[x[2]].v.id}} : c \in AllCalls(p)}
Wrong(p, m) == {d \in AllDemands(p) : Active(d, m) /\ d.v.mk = "imm"}
VerdictAt(p, m) == IF Wrong(p, m) # {} THEN "immutable" ELSE IF {"yes", "dyn"} \cap Meets(p, m) # {} THEN "overlap" ELSE IF "open" \in Meets(p, m) THEN "open" ELSE "ok"
\* Variables of functions that call each other may be inferred together: one that is passed as another may count as mutable when the other is
\* (a call asks for both in the same solving step).  Where that could matter the verdict is left open.
RECURSIVE Reach(_, _)
Reach(p, fs) == LET n == fs \cup {c.p[1] : c \in UNION {CallsB(p.bodies[f]) : f \in fs}} IN IF n = fs THEN fs ELSE Reach(p, n)
Together(p, f, g) == f = g \/ (g \in Reach(p, {f}) /\ f \in Reach(p, {g}))
Fused(p) == UNION {LET d == Demands(p.funs, c) IN {<<x.v.id, x.at>> : x \in {y \in d : y.v.mk = "inf" /\ y.at > 0}}
                   : c \in UNION {{x \in CallsB(p.bodies[f]) : Together(p, f, x.p[1])} : f \in 1..Len(p.funs)}}
RECURSIVE Most(_, _)
Most(p, m) == LET n == m \cup {d.v.id : d \in {x \in AllDemands(p) : Active(x, m) /\ x.v.mk = "inf"}} \cup {e[2] : e \in {x \in Fused(p) : x[1] \in m}} IN IF n = m THEN m ELSE Most(p, n)
Verdict(p, m) == LET a == VerdictAt(p, m) b == VerdictAt(p, Most(p, m)) IN IF (a = "ok") = (b = "ok") /\ b # "open" THEN a ELSE "open"

Init == seed \in SeedLo..SeedHi /\ prog = GenProg(seed) /\ M = {} /\ done = FALSE
Due == {d.v.id : d \in {x \in AllDemands(prog) : Active(x, M) /\ x.v.mk = "inf"}} \ M
Infer == /\ ~done /\ \E i \in Due : M' = M \cup {i} /\ UNCHANGED <<seed, prog, done>>
Judge == /\ ~done /\ Due = {} /\ done' = TRUE /\ UNCHANGED <<seed, prog, M>>
         /\ PrintT(ToJson([seed |-> seed, p |-> prog, m |-> M, v |-> Verdict(prog, M)]))
Next == Infer \/ Judge
Spec == Init /\ [][Next]_vars

RECURSIVE Least(_, _)
Least(p, m) == LET n == m \cup {d.v.id : d \in {x \in AllDemands(p) : Active(x, m) /\ x.v.mk = "inf"}} IN IF n = m THEN m ELSE Least(p, n)
\* whatever the order, the same set in the end
Confluent == done => M = Least(prog, {})
\* nothing is inferred mutable that no chain of demands asks for
Minimal == M \subseteq Least(prog, {})
=============================================================================
