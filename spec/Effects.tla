------------------------------- MODULE Effects -------------------------------
(***************************************************************************)
(* Effects of functions.  Seeded modules of functions that call primitives, *)
(* each other, their callable parameters, closures and trait methods; the   *)
(* effects a signature has to show are the least solution of the inclusions *)
(* the bodies give.  "fix" solves them in every order; "run" executes the   *)
(* module (branches open) and records what is performed.                    *)
(***************************************************************************)
EXTENDS Rng2, Json, TLC, FiniteSets
CONSTANTS SeedLo, SeedHi, MaxDepth, RunEvery
VARIABLES seed, prog, sig, ph, root, stk, done
vars == <<seed, prog, sig, ph, root, stk, done>>

Prims == {"read", "write", "fallible"}
Par(k) == IF k = 1 THEN "g" ELSE "h"
PrimEff(o) == CASE o = "log" -> {"write"} [] o = "src" -> {"read"} [] o = "div" -> {"fallible"} [] o = "idx" -> {"fallible"}
                [] o = "set" -> {"fallible"} [] o = "boom" -> {"write", "fallible"} [] o = "pure" -> {} [] o = "panic" -> {"fallible"}

-----------------------------------------------------------------------------
\* Statements [k, o, j, b, c, a]: o text, j number, b statements blocks, c callables, a arguments
St(k, o, j, b, c) == [k |-> k, o |-> o, j |-> j, b |-> b, c |-> c]
\* Callables: par j | fn j | lam b | join c | tup c
Cl(k, j, b, c) == [k |-> k, o |-> "", j |-> j, b |-> b, c |-> c]
\* cx: np parameters of this function; np callable parameter counts of the earlier functions; self, peer: functions of its group; lo: earlier functions
PrimOf(s) == PickW(s, << <<4, "log">>, <<4, "src">>, <<3, "div">>, <<2, "idx">>, <<2, "set">>, <<2, "boom">>, <<4, "pure">> >>)
Prim(s) == St("prim", PrimOf(s), 0, <<>>, <<>>)

\* primitives and applications of own parameters
Own(s, cx) == 1 + Rnd(s, cx.np)
Lam(cx) == [cx EXCEPT !.lam = TRUE, !.deep = FALSE]
RECURSIVE Leaf(_, _, _)
Leaf(s, cx, n) == IF n = 0 THEN <<>>
  ELSE << IF cx.np > 0 /\ Chance(Sub(s, 1), 35) THEN St("app", "direct", 0, <<>>, << Cl("par", Own(Sub(s, 2), cx), <<>>, <<>>) >>) ELSE Prim(Sub(s, 3)) >> \o Leaf(Sub(s, 4), cx, n - 1)

RECURSIVE Block(_, _, _), Stmt(_, _, _), Call(_, _, _), Blk(_, _, _, _)
\* a closure that does something visible; a place where callables meet gives them the same effects, so that a parameter
\* would be bounded by a closure's
Loud(s) == Cl("lam", 0, << << St("prim", PickOf(Sub(s, 3), <<"log", "src", "div", "boom">>), 0, <<>>, <<>>) >> >>, <<>>)
Call(s, cx, d) ==
  LET o == PickW(Sub(s, 1), << << IF cx.np > 0 THEN 6 ELSE 0, "par">>, << IF cx.plain = <<>> THEN 0 ELSE 3, "fn">>,
             << IF d > 0 THEN 5 ELSE 1, "lam">>, << IF d > 0 THEN 2 ELSE 0, "join">>, << IF d > 0 THEN 1 ELSE 0, "tup">> >>)
  IN CASE o = "par" -> Cl("par", Own(Sub(s, 2), cx), <<>>, <<>>)
       [] o = "fn" -> Cl("fn", PickOf(Sub(s, 3), cx.plain), <<>>, <<>>)
       [] o = "lam" -> Cl("lam", 0, << IF d = 0 THEN Leaf(Sub(s, 4), Lam(cx), Rnd(Sub(s, 8), 3)) ELSE Block(Sub(s, 4), Lam(cx), d - 1) >>, <<>>)
       [] o = "join" -> Cl("join", 0, <<>>, << Loud(Sub(s, 5)), Loud(Sub(s, 6)) >>)
       [] OTHER -> Cl("tup", 0, <<>>, << Call(Sub(s, 7), cx, 0) >>)
Stmt(s, cx, d) ==
  LET b(k) == Block(Sub(s, 10 + k), cx, d - 1)
      c(k) == Call(Sub(s, 20 + k), cx, d)
      o == PickW(Sub(s, 1), << <<8, "prim">>, << IF cx.lo = <<>> THEN 0 ELSE 8, "call">>, << IF cx.grp = <<>> \/ cx.lam THEN 0 ELSE 5, "rec">>,
             <<7, "app">>, <<2, "hold">>, << IF d > 0 THEN 4 ELSE 0, "if">>, << IF d > 0 THEN 2 ELSE 0, "when">>, << IF d > 0 THEN 2 ELSE 0, "match">>,
             << IF d > 0 THEN 2 ELSE 0, "for">>, << IF d > 0 THEN 2 ELSE 0, "loop">>, << IF cx.deep THEN 2 ELSE 0, "ret">>, <<2, "fold">>,
             <<2, "need">>, <<2, "fix">>, <<2, "assoc">>, <<1, "gen">> >>)
  IN CASE o = "prim" -> Prim(Sub(s, 2))
       [] o = "call" -> LET q == PickOf(Sub(s, 3), cx.lo) IN St("call", "", q[1], <<>>, [k \in 1..q[2] |-> LET x == c(k) IN IF x.k = "tup" THEN x.c[1] ELSE x])
       [] o = "rec" -> LET q == PickOf(Sub(s, 4), cx.grp) IN
            \* inside a group a function is called with one's own parameters
            St("when", "", 0, << << St("call", "", q[1], <<>>, [k \in 1..q[2] |-> Cl("par", k, <<>>, <<>>)]) >> >>, <<>>)
       [] o = "app" -> St("app", PickOf(Sub(s, 5), <<"let", "direct">>), 0, <<>>, << c(1) >>)
       [] o = "hold" -> St("hold", "", 0, <<>>, << c(1) >>)
       [] o = "fold" -> St("fold", "", 0, <<>>, << c(1) >>)
       [] o = "need" -> LET j == IF cx.lam /\ cx.np > 0 THEN 0 ELSE Rnd(Sub(s, 6), 4)
                            \* a parameter would carry what is admitted besides its own effects
                            x == IF j = 0 THEN c(1) ELSE Call(Sub(s, 21), [cx EXCEPT !.np = 0], d) IN
            St("need", "", j, <<>>, << IF x.k = "join" THEN x.c[1] ELSE x >>)
       [] o = "fix" -> St("fix", "", Rnd(Sub(s, 6), 2), <<>>, <<>>)
       [] o = "assoc" -> St("assoc", "", Rnd(Sub(s, 6), 2), <<>>, <<>>)
       [] o = "gen" -> St("gen", "", Rnd(Sub(s, 6), 2), <<>>, <<>>)
       [] o \in {"if", "match"} -> St(o, "", 0, << Block(Sub(s, 10), [cx EXCEPT !.deep = TRUE], d - 1), Block(Sub(s, 11), [cx EXCEPT !.deep = TRUE], d - 1) >>, <<>>)
       [] o = "when" -> St(o, "", 0, << Block(Sub(s, 12), [cx EXCEPT !.deep = TRUE], d - 1) >>, <<>>)
       [] o = "for" -> St(o, "", 0, << Block(Sub(s, 13), [cx EXCEPT !.deep = FALSE], d - 1) >>, <<>>)
       [] o = "loop" -> St(o, "", 0, << Block(Sub(s, 14), [cx EXCEPT !.deep = FALSE], d - 1), Block(Sub(s, 15), [cx EXCEPT !.deep = FALSE], d - 1) >>, <<>>)
       [] OTHER -> St("ret", "", 0, <<>>, <<>>)
Blk(s, cx, d, n) == IF n = 0 THEN <<>> ELSE << Stmt(Sub(s, n), cx, d) >> \o Blk(s, cx, d, n - 1)
Block(s, cx, d) == Blk(Sub(s, 1), cx, d, 1 + Rnd(Sub(s, 2), IF d > 0 THEN 3 ELSE 2))

\* what `need` functions admit besides their effect parameter; what the traits declare
NeedEff(j) == CASE j = 0 -> {} [] j = 1 -> {"read"} [] j = 2 -> {"write"} [] OTHER -> {"fallible"}
SomePrims(s) == PickOf(s, << {}, {"read"}, {"write"}, {"fallible"}, {"read", "write"}, {"write", "fallible"}, {"read", "fallible"}, Prims >>)
S0(n) == Seed(n)
NFuns(n) == 2 + Rnd(Sub(S0(n), 1), 3)
NPars(n, i) == PickW(Sub(S0(n), 10 + i), << <<4, 0>>, <<4, 1>>, <<2, 2>> >>)
\* function i and i + 1 are a group when this holds: they may call each other
Tied(n, i) == i >= 1 /\ i < NFuns(n) /\ Chance(Sub(S0(n), 20 + i), 40) /\ ~(i > 1 /\ Chance(Sub(S0(n), 19 + i), 40))
Ctx(n, i) == [np |-> NPars(n, i), lam |-> FALSE, deep |-> FALSE,
              lo |-> SelectSeq([j \in 1..(i - 1) |-> <<j, NPars(n, j)>>], LAMBDA q : ~(q[1] = i - 1 /\ Tied(n, i - 1))),
              plain |-> SelectSeq([j \in 1..(i - 1) |-> j], LAMBDA j : NPars(n, j) = 0 /\ ~(j = i - 1 /\ Tied(n, i - 1))),
              grp |-> SelectSeq(<< <<i, NPars(n, i)>> >> \o (IF Tied(n, i) THEN << <<i + 1, NPars(n, i + 1)>> >> ELSE <<>>)
                        \o (IF Tied(n, i - 1) THEN << <<i - 1, NPars(n, i - 1)>> >> ELSE <<>>), LAMBDA q : q[2] <= NPars(n, i))]
RECURSIVE Funs(_, _)
Funs(n, i) == IF i > NFuns(n) THEN <<>>
              ELSE << [np |-> NPars(n, i), b |-> Block(Sub(S0(n), 30 + i), Ctx(n, i), 2)] >> \o Funs(n, i + 1)
\* two structs; a trait whose method declares its effects, and one whose implementations bind them
NoCx == [np |-> 0, lam |-> FALSE, deep |-> FALSE, lo |-> <<>>, plain |-> <<>>, grp |-> <<>>]
Method(s) == Leaf(Sub(s, 1), NoCx, Rnd(Sub(s, 2), 3))

-----------------------------------------------------------------------------
\* Effects of code, given those of the functions.  E(b) = [e, ends]
RECURSIVE EB(_, _, _, _), ES(_, _, _), EC(_, _, _)
EC(c, sg, p) == CASE c.k = "par" -> {Par(c.j)} [] c.k = "fn" -> sg[c.j] \cap Prims [] c.k = "lam" -> EB(c.b[1], 1, sg, p).e
                  [] c.k = "join" -> EC(c.c[1], sg, p) \cup EC(c.c[2], sg, p) [] OTHER -> EC(c.c[1], sg, p)
V(e, ends) == [e |-> e, ends |-> ends]
ES(st, sg, p) ==
  CASE st.k = "prim" -> V(PrimEff(st.o), st.o = "panic")
    [] st.k = "call" -> V((sg[st.j] \cap Prims) \cup UNION {IF Par(k) \in sg[st.j] THEN EC(st.c[k], sg, p) ELSE {} : k \in 1..Len(st.c)}, FALSE)
    [] st.k \in {"app", "fold"} -> V(EC(st.c[1], sg, p), FALSE)
    [] st.k = "hold" -> V({}, FALSE)
    [] st.k = "need" -> V(NeedEff(st.j) \cup EC(st.c[1], sg, p), FALSE)
    [] st.k = "fix" -> V(p.fixed, FALSE)
    [] st.k \in {"assoc", "gen"} -> V(p.bind[st.j + 1], FALSE)
    [] st.k \in {"if", "match"} -> LET a == EB(st.b[1], 1, sg, p) b == EB(st.b[2], 1, sg, p) IN V(a.e \cup b.e, a.ends /\ b.ends)
    [] st.k = "when" -> V(EB(st.b[1], 1, sg, p).e, FALSE)
    [] st.k = "for" -> V(EB(st.b[1], 1, sg, p).e, FALSE)
    \* loop { first; if .. { break }; second; }
    [] st.k = "loop" -> LET a == EB(st.b[1], 1, sg, p) IN IF a.ends THEN V(a.e, TRUE) ELSE V(a.e \cup EB(st.b[2], 1, sg, p).e, FALSE)
    [] OTHER -> V({}, TRUE)
EB(b, k, sg, p) == IF k > Len(b) THEN V({}, FALSE) ELSE
  LET x == ES(b[k], sg, p) IN IF x.ends THEN x ELSE LET y == EB(b, k + 1, sg, p) IN V(x.e \cup y.e, y.ends)
\* what is declared mostly covers the methods
Prog(n) ==
  LET p0 == [f |-> Funs(n, 1), fixed |-> {}, bind |-> << {}, {} >>,
             fix |-> << Method(Sub(S0(n), 51)), Method(Sub(S0(n), 52)) >>, assoc |-> << Method(Sub(S0(n), 55)), Method(Sub(S0(n), 56)) >>]
      needs(b) == EB(b, 1, <<>>, p0).e
      decl(k, e) == IF Chance(Sub(S0(n), 70 + k), 85) THEN e \cup (IF Chance(Sub(S0(n), 75 + k), 30) THEN SomePrims(Sub(S0(n), 80 + k)) ELSE {}) ELSE SomePrims(Sub(S0(n), 85 + k))
  IN [p0 EXCEPT !.fixed = decl(1, needs(p0.fix[1]) \cup needs(p0.fix[2])), !.bind = << decl(2, needs(p0.assoc[1])), decl(3, needs(p0.assoc[2])) >>]
Body(p, j, sg) == EB(p.f[j].b, 1, sg, p).e
RECURSIVE Lfp(_, _)
Lfp(p, sg) == LET t == [j \in 1..Len(p.f) |-> sg[j] \cup Body(p, j, sg)] IN IF t = sg THEN sg ELSE Lfp(p, t)
Bottom(p) == [j \in 1..Len(p.f) |-> {}]
Least == Lfp(prog, Bottom(prog))
\* methods fit what is declared for them
FixOk(p, k) == EB(p.fix[k], 1, Bottom(p), p).e \subseteq p.fixed
AssocOk(p, k) == EB(p.assoc[k], 1, Bottom(p), p).e \subseteq p.bind[k]
RECURSIVE Effectless(_, _, _), EffectlessAny(_, _, _)
\* a join of two callables one of which turns out to have no effects is outside of what is decided
Effectless(x, sg, p) == (x.k = "join" /\ \E k \in 1..2 : EC(x.c[k], sg, p) = {})
                        \/ EffectlessAny(x.c, sg, p) \/ \E k \in 1..Len(x.b) : EffectlessAny(x.b[k], sg, p)
EffectlessAny(q, sg, p) == \E k \in 1..Len(q) : Effectless(q[k], sg, p)

-----------------------------------------------------------------------------
\* Solving in any order
Init == /\ seed \in SeedLo..SeedHi /\ prog = Prog(seed) /\ sig = Bottom(prog) /\ ph = "fix"
        /\ root = 0 /\ stk = <<>> /\ done = {}
Grow == /\ ph = "fix"
        /\ \E j \in 1..Len(prog.f) : LET e == Body(prog, j, sig) IN ~(e \subseteq sig[j]) /\ sig' = [sig EXCEPT ![j] = @ \cup e]
        /\ UNCHANGED <<seed, prog, ph, root, stk, done>>
Solved == \A j \in 1..Len(prog.f) : Body(prog, j, sig) \subseteq sig[j]
Record == [seed |-> seed, prog |-> prog, sig |-> sig,
           odd |-> \E j \in 1..Len(prog.f) : EffectlessAny(prog.f[j].b, sig, prog),
           \* places that admit the effects in P: function j fits when it has no more
           uses |-> LET one(k) == LET j == 1 + Rnd(Sub(S0(seed), 100 + k), Len(prog.f))
                                      P == IF Chance(Sub(S0(seed), 110 + k), 60) /\ sig[j] \cap Prims # {} THEN (sig[j] \cap Prims) \ {CHOOSE x \in sig[j] \cap Prims : TRUE}
                                           ELSE (sig[j] \cap Prims) \cup SomePrims(Sub(S0(seed), 120 + k))
                                  IN [j |-> j, p |-> P, ok |-> sig[j] \cap Prims \subseteq P]
                    IN << one(1), one(2) >>,
           fixok |-> << FixOk(prog, 1), FixOk(prog, 2) >>, assocok |-> << AssocOk(prog, 1), AssocOk(prog, 2) >>]
Emit == ph = "fix" /\ Solved /\ PrintT(ToJson(Record)) /\ ph' = "solved" /\ UNCHANGED <<seed, prog, sig, root, stk, done>>
Start == /\ ph = "solved"
         /\ seed % RunEvery = 0
         /\ \E j \in {1 + Rnd(Sub(S0(seed), 60), Len(prog.f))} : root' = j /\ stk' = << [b |-> prog.f[j].b, env |-> [k \in 1..prog.f[j].np |-> [k |-> "open", j |-> k]], fun |-> TRUE] >>
         /\ ph' = "run" /\ UNCHANGED <<seed, prog, sig, done>>

\* Running: frames [b: what is left, env: values of the callable parameters, fun]; values: open parameter of the root, function, closure
RECURSIVE Val(_, _)
\* the values a callable expression can evaluate to
Val(c, env) == CASE c.k = "par" -> {env[c.j]} [] c.k = "fn" -> {[k |-> "fn", j |-> c.j]} [] c.k = "lam" -> {[k |-> "lam", b |-> c.b[1], env |-> env]}
                 [] c.k = "join" -> Val(c.c[1], env) \cup Val(c.c[2], env) [] OTHER -> Val(c.c[1], env)
Frame(b, env, fun) == [b |-> b, env |-> env, fun |-> fun]
Rest(stack) == << [stack[1] EXCEPT !.b = Tail(@)] >> \o Tail(stack)
RECURSIVE PopFun(_)
PopFun(stack) == IF stack[1].fun THEN Tail(stack) ELSE PopFun(Tail(stack))
Enter(v, stack) == CASE v.k = "open" -> stack
                     [] v.k = "fn" -> << Frame(prog.f[v.j].b, <<>>, TRUE) >> \o stack
                     [] OTHER -> << Frame(v.b, v.env, TRUE) >> \o stack
Perform(v) == IF v.k = "open" THEN {Par(v.j)} ELSE {}
RECURSIVE Tuples(_, _, _)
Tuples(cs, env, k) == IF k > Len(cs) THEN { <<>> } ELSE {<<v>> \o t : v \in Val(cs[k], env), t \in Tuples(cs, env, k + 1)}
Exec ==
  /\ ph = "run" /\ stk # <<>>
  /\ UNCHANGED <<seed, prog, sig, root, ph>>
  /\ LET top == stk[1] IN
     IF top.b = <<>> THEN stk' = Tail(stk) /\ UNCHANGED done ELSE
     LET st == top.b[1] rest == Rest(stk) env == top.env IN
     CASE st.k = "prim" -> \E fails \in {FALSE, TRUE} :
            /\ fails => "fallible" \in PrimEff(st.o)
            /\ done' = done \cup (PrimEff(st.o) \ (IF fails THEN {} ELSE {"fallible"}))
            /\ stk' = IF fails THEN <<>> ELSE rest
       [] st.k = "call" -> \E args \in Tuples(st.c, env, 1) :
            stk' = << Frame(prog.f[st.j].b, args, TRUE) >> \o rest /\ UNCHANGED done
       [] st.k \in {"app", "fold", "need"} -> \E v \in Val(st.c[1], env) : stk' = Enter(v, rest) /\ done' = done \cup Perform(v)
       [] st.k = "hold" -> stk' = rest /\ UNCHANGED done
       [] st.k = "fix" -> stk' = << Frame(prog.fix[st.j + 1], <<>>, TRUE) >> \o rest /\ UNCHANGED done
       [] st.k \in {"assoc", "gen"} -> stk' = << Frame(prog.assoc[st.j + 1], <<>>, TRUE) >> \o rest /\ UNCHANGED done
       [] st.k \in {"if", "match"} -> \E k \in 1..2 : stk' = << Frame(st.b[k], env, FALSE) >> \o rest /\ UNCHANGED done
       [] st.k \in {"when", "for"} -> stk' \in {rest, << Frame(st.b[1], env, FALSE) >> \o rest} /\ UNCHANGED done
       [] st.k = "loop" -> stk' \in {<< Frame(st.b[1], env, FALSE) >> \o rest, << Frame(st.b[1], env, FALSE), Frame(st.b[2], env, FALSE) >> \o rest} /\ UNCHANGED done
       [] OTHER -> stk' = PopFun(stk) /\ UNCHANGED done
  /\ Len(stk') <= MaxDepth
Next == Grow \/ Emit \/ Start \/ Exec
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Below(a, b) == \A j \in DOMAIN a : a[j] \subseteq b[j]
\* every order of solving stays below the least solution and ends at it
Unique == ph = "fix" => LET l == Least IN Below(sig, l) /\ (Solved => sig = l)
MethodsFit == \A k \in 1..2 : FixOk(prog, k) /\ AssocOk(prog, k)
\* nothing is performed that the signature does not show
Sound == (ph = "run" /\ MethodsFit) => done \subseteq sig[root]
=============================================================================
