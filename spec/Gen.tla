--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Type-directed generation of core programs from a seed, as pure          *)
(* operators: the same seed always denotes the same program.               *)
(***************************************************************************)
EXTENDS Core

CONSTANT Profile

-----------------------------------------------------------------------------
\* Deterministic pseudo-random choices
Sub_(s, k) == LET a == (((s[1] + k * 7919 + 13) % 30269) * 171 + s[2]) % 30269
              IN << a, (s[2] * 172 + a * 31 + k * 5 + 7) % 30307 >>
Rnd(s, n) == ((s[1] * 31 + s[2] * 17) \div 7) % n
Chance(s, pc_) == Rnd(s, 100) < pc_
PickOf(s, q) == q[1 + Rnd(s, Len(q))]

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q)[1] + Total(Tail(q))
RECURSIVE PickAt(_, _)
PickAt(q, r) == IF r < Head(q)[1] THEN Head(q)[2] ELSE PickAt(Tail(q), r - Head(q)[1])
PickW(s, q) == PickAt(q, Rnd(s, Total(q)))

-----------------------------------------------------------------------------
\* Weights of the profile
Base == [eff |-> 2, fn |-> 4, lam |-> 0, match |-> 2, loop |-> 2, fail |-> 1, set |-> 4, arr |-> 2, str |-> 1,
         jump |-> 1, blk |-> 2, d |-> 0, gen |-> 2, stmts |-> 4, depth |-> 3, nf |-> 3, nest |-> 1, poke |-> 6, hot |-> 0, clash |-> 0, only |-> 0]
W == CASE Profile = "mix" -> [Base EXCEPT !.lam = 2, !.nest = 2]
       [] Profile = "opt" -> [Base EXCEPT !.hot = 12, !.set = 5, !.arr = 5, !.fn = 3, !.gen = 3, !.eff = 1, !.jump = 2, !.loop = 3]
       [] Profile = "mut" -> [Base EXCEPT !.poke = 30, !.clash = 6, !.set = 10, !.arr = 4, !.fn = 8, !.nest = 4, !.eff = 1, !.fail = 0]
       [] Profile = "order" -> [Base EXCEPT !.poke = 20, !.clash = 3, !.eff = 10, !.set = 5, !.nest = 3, !.blk = 4, !.fail = 0, !.depth = 4]
       [] Profile = "flow" -> [Base EXCEPT !.loop = 10, !.jump = 8, !.match = 3, !.fail = 0, !.nf = 2]
       [] Profile = "fail" -> [Base EXCEPT !.fail = 8, !.loop = 3, !.lam = 1]
       [] Profile = "clos" -> [Base EXCEPT !.lam = 12, !.fail = 0, !.gen = 4]
       [] Profile = "match" -> [Base EXCEPT !.match = 14, !.fail = 0]
       [] Profile = "gen" -> [Base EXCEPT !.gen = 12, !.fn = 8, !.fail = 0, !.lam = 3]
       [] Profile = "own" -> [Base EXCEPT !.d = 8, !.fail = 1, !.jump = 4, !.arr = 1, !.str = 0, !.gen = 0, !.eff = 1]
       [] Profile = "ownfail" -> [Base EXCEPT !.d = 8, !.fail = 5, !.jump = 3, !.arr = 1, !.str = 0, !.gen = 0, !.eff = 1]
       [] Profile = "hot" -> [Base EXCEPT !.hot = 12, !.only = 1, !.nf = 0, !.gen = 0, !.depth = 1, !.stmts = 1, !.eff = 1]
       [] OTHER -> Base

-----------------------------------------------------------------------------
\* Contexts: vs variables [n, t, m] (m: 0 immutable, 1 mutable, 2 mutable and resizable), ls enclosing loops,
\* rt result type for return ("-": none), fs callable functions, ld loop nesting, pure: nothing may fail or jump
Var(n, t, m) == [n |-> n, t |-> t, m |-> m]
Names == <<"a", "b", "c", "x", "y", "z", "u", "w">>
Visible(cx, i) == \A j \in (i + 1)..Len(cx.vs) : cx.vs[j].n # cx.vs[i].n
\* inside operands nothing is resized
Operand(cx) == [cx EXCEPT !.vs = [i \in 1..Len(@) |-> IF @[i].m = 2 THEN [@[i] EXCEPT !.m = 1] ELSE @[i]]]

Par(n, t, m) == [n |-> n, t |-> t, m |-> m]
Fun(n, ps, rt, b, g) == [n |-> n, ps |-> ps, rt |-> rt, b |-> b, g |-> g]
Sig(n, ps, rt, g) == [n |-> n, ps |-> ps, rt |-> rt, g |-> g]

\* access paths from a type to a type
Shapes(rt, t) ==
  CASE rt = t -> << <<>> >>
    [] rt = "T" /\ t = "I" -> << <<"0">>, <<"1">> >>
    [] rt = "P" /\ t = "I" -> << <<"x">>, <<"y">> >>
    [] rt = "A" /\ t = "I" -> << <<"i">> >>
    [] rt = "AT" /\ t = "T" -> << <<"i">> >>
    [] rt = "AT" /\ t = "I" -> << <<"i", "0">>, <<"i", "1">> >>
    [] rt = "Q" /\ t = "P" -> << <<"p">> >>
    [] rt = "Q" /\ t = "T" -> << <<"q">> >>
    [] rt = "Q" /\ t = "I" -> << <<"p", "x">>, <<"p", "y">>, <<"q", "0">>, <<"q", "1">> >>
    [] rt = "AA" /\ t = "A" -> << <<"i">> >>
    [] rt = "AA" /\ t = "I" -> << <<"i", "i">> >>
    [] rt = "DP" /\ t = "D" -> << <<"0">>, <<"1">> >>
    [] rt = "DA" /\ t = "D" -> << <<"i">> >>
    [] rt = "D" /\ t = "I" -> << <<"l">> >>
    [] rt = "DP" /\ t = "I" -> << <<"0", "l">>, <<"1", "l">> >>
    [] OTHER -> <<>>
TypeAt(rt, st) ==
  CASE rt = "T" -> "I" [] rt = "P" -> "I" [] rt = "A" -> "I" [] rt = "AT" -> "T" [] rt = "AA" -> "A"
    [] rt = "Q" -> (IF st = "p" THEN "P" ELSE "T") [] rt = "DP" -> "D" [] rt = "DA" -> "D" [] OTHER -> "I"

\* candidates: <<variable index, path>>
RECURSIVE Cands_(_, _, _, _, _)
Cands_(cx, t, m, ex, i) ==
  IF i = 0 THEN <<>>
  ELSE LET v == cx.vs[i]
           sh == IF v.m >= m /\ v.n \notin ex /\ Visible(cx, i) THEN Shapes(v.t, t) ELSE <<>>
       IN [j \in 1..Len(sh) |-> <<i, sh[j]>>] \o Cands_(cx, t, m, ex, i - 1)
Cands(cx, t, m, ex) == Cands_(cx, t, m, ex, Len(cx.vs))
HasPlace(cx, t, m) == Cands(cx, t, m, {}) # <<>>

Int_(n) == N("int", "I", "", n, <<>>)
VarE(n, t) == N("var", t, n, 0, <<>>)

\* Later parts of an aggregate that owns storage (and all elements of such an array) neither fail nor jump (finding F4)
Pure(cx) == [cx EXCEPT !.ls = <<>>, !.rt = "-", !.fs = <<>>, !.pure = TRUE]

RECURSIVE GenE(_, _, _, _)
RECURSIVE GenHot(_, _)
RECURSIVE GenClash(_, _, _)
RECURSIVE GenStmts(_, _, _, _, _)
RECURSIVE GenStmt(_, _, _)
RECURSIVE GenPath(_, _, _, _, _)
RECURSIVE GenArgs(_, _, _, _, _, _)

\* index expressions: mostly in bounds (arrays have 2 to 4 elements)
GenIndex(s, cx, d) ==
  LET r == Rnd(s, 20) IN
  IF d < 0 \/ r < 9 \/ cx.pure THEN Int_(r % 2)
  ELSE IF r < 11 THEN Int_(-1 - (r % 2))
  ELSE IF r < 14 /\ d > 0 THEN N("mod", "I", "", 0, <<GenE(Sub_(s, 1), "I", cx, d - 1), Int_(2)>>)
  ELSE IF r < 16 /\ W.eff > 2 THEN N("tap", "I", "", 0, <<Int_(r % 2)>>)
  ELSE IF r < 17 /\ W.fail > 1 /\ d > 0 THEN GenE(Sub_(s, 2), "I", cx, d - 1)
  ELSE IF r < 18 /\ W.fail > 1 THEN Int_(Rnd(Sub_(s, 3), 9) - 4)
  ELSE Int_(r % 2)

GenPath(s, e, path, cx, d) ==
  IF path = <<>> THEN e
  ELSE LET st == Head(path)
           t2 == TypeAt(e.t, st)
           e2 == CASE st \in {"0", "1"} -> N("tupix", t2, "", IF st = "0" THEN 0 ELSE 1, <<e>>)
                   [] st = "i" -> N("idx", t2, "", 0, <<e, GenIndex(Sub_(s, 11), cx, d)>>)
                   [] OTHER -> N("fld", t2, st, 0, <<e>>)
       IN GenPath(Sub_(s, 12), e2, Tail(path), cx, d)

\* a place of type t, m: minimal mutability, ex: excluded roots; NoN if there is none
GenPlace(s, t, cx, d, m, ex) ==
  LET cs == Cands(cx, t, m, ex) IN
  IF cs = <<>> THEN NoN
  ELSE LET c == PickOf(Sub_(s, 1), cs)
           v == cx.vs[c[1]]
       IN GenPath(Sub_(s, 2), VarE(v.n, v.t), c[2], cx, d)
RECURSIVE RootOf(_)
RootOf(e) == IF e.k = "var" THEN e.s ELSE RootOf(e.c[1])

\* a block that assigns to a part of variable x and then yields a value of type t
GenPoke(s, x, t, cx, d) ==
  LET idx == {i \in 1..Len(cx.vs) : cx.vs[i].n = x /\ Visible(cx, i) /\ cx.vs[i].m > 0} IN
  IF idx = {} THEN NoN
  ELSE LET v == cx.vs[CHOOSE i \in idx : TRUE]
           kinds == <<"I", "T", "P", "A", v.t>>
           sh == Shapes(v.t, PickOf(Sub_(s, 1), kinds))
           sh2 == IF sh = <<>> THEN Shapes(v.t, v.t) ELSE sh
           p == GenPath(Sub_(s, 2), VarE(v.n, v.t), PickOf(Sub_(s, 3), sh2), Pure(Operand(cx)), 0)
       IN N("block", t, "", 1, <<N("set", "U", "", 0, <<p, GenE(Sub_(s, 4), p.t, Operand(cx), 0)>>), GenE(Sub_(s, 5), t, Operand(cx), d - 1)>>)

\* functions returning t whose mutable parameters can be supplied
Callable(cx, t) == SelectSeq(cx.fs, LAMBDA f : f.rt = t /\ \A i \in 1..Len(f.ps) :
                        f.ps[i].m = 1 => Cands(cx, f.ps[i].t, 1, {}) # <<>>)
GenArgs(s, ps, i, cx, d, ex) ==     \* sequence of arguments, or <<NoN>> if a mutable place is missing
  IF i > Len(ps) THEN <<>>
  ELSE LET e == IF ps[i].m = 1 THEN GenPlace(Sub_(s, i), ps[i].t, cx, d, 1, ex)
                ELSE LET mp == IF ps[i].t \notin {"I", "B", "S", "F", "U"} /\ i < Len(ps) /\ Chance(Sub_(s, 85 + i), 2 * W.poke)
                               THEN GenPlace(Sub_(s, i), ps[i].t, cx, 0, 1, ex) ELSE NoN
                     IN IF mp.k # "none" THEN mp ELSE GenE(Sub_(s, i), ps[i].t, cx, d)
           \* a later argument overwrites a part of (or all of) an earlier by-value argument
           hot == e.k # "none" /\ ps[i].m = 0 /\ IsPlace(e) /\ i < Len(ps) /\ ps[i + 1].m = 0 /\ Chance(Sub_(s, 90 + i), 2 * W.poke)
           pk == IF hot THEN GenPoke(Sub_(s, 95 + i), RootOf(e), ps[i + 1].t, cx, d) ELSE NoN
           rest == IF e.k = "none" THEN <<>>
                   ELSE IF pk.k # "none" THEN <<pk>> \o GenArgs(Sub_(s, 50 + i), ps, i + 2, cx, d, ex)
                   ELSE GenArgs(Sub_(s, 40 + i), ps, i + 1, cx, d, IF ps[i].m = 1 THEN ex \cup {RootOf(e)} ELSE ex)
       IN IF e.k = "none" THEN <<NoN>> ELSE <<e>> \o rest
HasNone(q) == \E i \in 1..Len(q) : q[i].k = "none"

Leaf(s, t, cx, d) ==
  CASE t = "I" -> Int_(Rnd(s, 13) - 3)
    [] t = "B" -> LET p == IF Chance(Sub_(s, 5), 80) THEN GenPlace(Sub_(s, 3), "I", Operand(cx), 0, 0, {}) ELSE NoN IN
                  IF p.k = "none" THEN N("bool", "B", "", Rnd(s, 2), <<>>)
                  ELSE N("bin", "B", PickOf(s, <<"<", "<=", ">", ">=", "==", "!=">>), 0, <<p, Int_(Rnd(Sub_(s, 4), 8) - 2)>>)
    [] t = "U" -> N("unit", "U", "", 0, <<>>)
    [] t = "S" -> N("str", "S", PickOf(s, <<"", "p", "qr", "p q">>), 0, <<>>)
    [] t = "T" -> N("tuple", "T", "", 0, <<Int_(Rnd(s, 7)), Int_(Rnd(Sub_(s, 1), 7))>>)
    [] t = "P" -> N("struct", "P", "P", 0, <<Int_(Rnd(s, 7)), Int_(Rnd(Sub_(s, 1), 7))>>)
    [] t = "Q" -> N("struct", "Q", "Q", 0,
                    <<N("struct", "P", "P", 0, <<Int_(Rnd(s, 7)), Int_(Rnd(Sub_(s, 1), 7))>>),
                      N("tuple", "T", "", 0, <<Int_(Rnd(Sub_(s, 2), 7)), Int_(Rnd(Sub_(s, 3), 7))>>)>>)
    [] t = "A" -> N("array", "A", "", 0, [i \in 1..(2 + Rnd(s, 3)) |-> Int_(Rnd(Sub_(s, i), 9))])
    [] t = "AT" -> N("array", "AT", "", 0, [i \in 1..(2 + Rnd(s, 2)) |->
                    N("tuple", "T", "", 0, <<Int_(Rnd(Sub_(s, i), 7)), Int_(Rnd(Sub_(s, 10 + i), 7))>>)])
    [] t = "AA" -> N("array", "AA", "", 0, [i \in 1..2 |->
                    N("array", "A", "", 0, [j \in 1..(2 + Rnd(Sub_(s, 7 + i), 2)) |-> Int_(Rnd(Sub_(s, 3 * i + j), 9))])])
    [] t = "O" -> IF Chance(s, 30) THEN N("ctor", "O", "None", 0, <<>>)
                  ELSE N("ctor", "O", "Some", 0, <<Int_(Rnd(Sub_(s, 1), 9))>>)
    [] t = "V" -> CASE Rnd(s, 3) = 0 -> N("ctor", "V", "E::C", 0, <<>>)
                    [] Rnd(s, 3) = 1 -> N("ctor", "V", "E::A", 0, <<Int_(Rnd(Sub_(s, 1), 5))>>)
                    [] OTHER -> N("ctor", "V", "E::B", 0, <<Int_(Rnd(Sub_(s, 1), 5)), Int_(Rnd(Sub_(s, 2), 5))>>)
    [] t = "F" -> N("lam", "F", "", 0, <<N("par", "I", "q", 0, <<>>),
                     N("bin", "I", PickOf(s, <<"+", "-", "*">>), 0, <<VarE("q", "I"), Int_(Rnd(Sub_(s, 1), 5))>>)>>)
    [] t = "D" -> N("mk", "D", "", 0, <<Int_(1 + Rnd(s, 9))>>)
    [] t = "DP" -> N("tuple", "DP", "", 0, <<N("mk", "D", "", 0, <<Int_(1 + Rnd(s, 9))>>),
                                            N("mk", "D", "", 0, <<Int_(1 + Rnd(Sub_(s, 1), 9))>>)>>)
    [] t = "DA" -> N("array", "DA", "", 0, [i \in 1..2 |-> N("mk", "D", "", 0, <<Int_(1 + Rnd(Sub_(s, i), 9))>>)])
    [] t = "DO" -> IF Chance(s, 30) THEN N("ctor", "DO", "None", 0, <<>>)
                   ELSE N("ctor", "DO", "Some", 0, <<N("mk", "D", "", 0, <<Int_(1 + Rnd(Sub_(s, 1), 9))>>)>>)
    [] OTHER -> NoN

\* a jump out of the current position, "none" if there is no target
GenJump(s, cx, d) ==
  LET opts == (IF cx.ls # <<>> THEN << <<4, "break">>, <<4, "continue">> >> ELSE <<>>)
              \o (IF cx.rt # "-" THEN << <<2, "return">> >> ELSE <<>>)
  IN IF opts = <<>> THEN NoN
     ELSE LET k == PickW(Sub_(s, 1), opts) IN
          IF k = "return"
          THEN N("return", "N", "", 0, IF cx.rt = "U" THEN <<>> ELSE <<GenE(Sub_(s, 2), cx.rt, Operand(cx), d)>>)
          ELSE LET j == 1 + Rnd(Sub_(s, 3), Len(cx.ls))
                   l == cx.ls[j]
                   lab == IF j = Len(cx.ls) /\ Chance(Sub_(s, 4), 60) THEN "" ELSE l.n
               IN IF lab = "" /\ j # Len(cx.ls) THEN NoN
                  ELSE IF k = "continue" THEN N("continue", "N", lab, 0, <<>>)
                  ELSE N("break", "N", lab, 0, IF l.t = "U" THEN <<>> ELSE <<GenE(Sub_(s, 5), l.t, Operand(cx), d)>>)

NewName(s) == PickOf(s, Names)

Block(t, c, tail) == N("block", t, "", IF tail THEN 1 ELSE 0, c)

\* block of n statements and a tail of type t (U: no tail)
GenBlock(s, t, cx, d, n) ==
  LET b == GenStmts(Sub_(s, 1), cx, d, n, <<>>) IN
  IF t = "U" THEN Block("U", b.c, FALSE)
  ELSE Block(t, Append(b.c, GenE(Sub_(s, 2), t, b.cx, d)), TRUE)

\* counted loop: { let mut k = 0; 'l: loop { k += 1; if k > n { break e }; ... } }
GenLoop(s, t, cx, d) ==
  LET k == "k" \o ToString(cx.ld)
      lab == IF Chance(Sub_(s, 1), 60) THEN "l" \o ToString(cx.ld) ELSE ""
      cx1 == [cx EXCEPT !.vs = Append(@, Var(k, "I", 0)), !.ld = @ + 1,
                        !.ls = Append(@, [n |-> lab, t |-> t])]
      inc == IF Chance(Sub_(s, 2), 50) THEN N("opset", "U", "+", 0, <<VarE(k, "I"), Int_(1)>>)
             ELSE N("set", "U", "", 0, <<VarE(k, "I"), N("bin", "I", "+", 0, <<VarE(k, "I"), Int_(1)>>)>>)
      leave == N("if", "U", "", 0, <<N("bin", "B", ">", 0, <<VarE(k, "I"), Int_(1 + Rnd(Sub_(s, 3), 3))>>),
                 Block("U", <<N("break", "N", "", 0, IF t = "U" THEN <<>> ELSE <<GenE(Sub_(s, 4), t, Operand(cx1), d - 1)>>)>>, FALSE)>>)
      body == GenStmts(Sub_(s, 5), cx1, d - 1, 1 + Rnd(Sub_(s, 6), 3), <<inc, leave>>)
  IN Block(t, <<N("let", "I", k, 1, <<Int_(0)>>),
                N("loop", t, lab, 0, <<Block("U", body.c, FALSE)>>)>>, t # "U")

GenFor(s, cx, d) ==
  LET lab == ""     \* a for loop takes no label
      v == NewName(Sub_(s, 2))
      arr == GenPlace(Sub_(s, 3), "A", Operand(cx), 0, 0, {})
      useArr == arr.k # "none" /\ Chance(Sub_(s, 4), 40)
      darr == GenPlace(Sub_(s, 3), "DA", Operand(cx), 0, 0, {})
      \* at most one bound does more than read: the order of the two is finding F3
      pure(i) == LET p == GenPlace(Sub_(s, 16 + i), "I", Operand(cx), -1, 0, {}) IN
                 IF p.k # "var" THEN Int_(Rnd(Sub_(s, 12 + i), 6) - 1) ELSE N("mod", "I", "", 0, <<p, Int_(4)>>)
      bound(i) == IF Chance(Sub_(s, 10), 50) = (i = 1) THEN Int_(Rnd(Sub_(s, 12 + i), 6) - 1)
                  ELSE IF Chance(Sub_(s, 11), 40) THEN pure(i)
                  ELSE N("mod", "I", "", 0, <<GenE(Sub_(s, 14 + i), "I", Operand(cx), 1), Int_(4)>>)
      it == IF useArr THEN N("each", "A", "", 0, <<arr>>)
            ELSE N("range", "A", "", IF Chance(Sub_(s, 5), 40) THEN 1 ELSE 0, IF Chance(Sub_(s, 9), 30) THEN <<pure(1), pure(2)>> ELSE <<bound(1), bound(2)>>)
      cx1 == [cx EXCEPT !.vs = Append(@, Var(v, "I", 0)), !.ld = @ + 1, !.ls = Append(@, [n |-> lab, t |-> "U"])]
      body == GenStmts(Sub_(s, 6), cx1, d - 1, 1 + Rnd(Sub_(s, 7), 3), <<>>)
  IN N("for", v, lab, 0, <<it, Block("U", body.c, FALSE)>>)

\* A loop of the kind the optimizer works on: indices that a range or a comparison bounds, expressions over variables the
\* loop may or may not change (directly, through a mutable argument of a fallible call, under a condition), accumulators.
HotVars(cx, t, m) == SelectSeq(cx.vs, LAMBDA v : v.t = t /\ v.m >= m)
\* the places of type t in the block's aggregate x
HotParts(s, cx, x, t) ==
  LET qs == SelectSeq(cx.vs, LAMBDA v : v.n = x) IN
  IF qs = <<>> THEN <<>> ELSE
  LET q == qs[1]
      sh == (IF q.t = t THEN << <<>> >> ELSE <<>>) \o Shapes(q.t, t)
  IN [i \in 1..Len(sh) |-> GenPath(s, VarE(x, q.t), sh[i], Pure(cx), -1)]
HotStmt(s, cx, k, a) ==
  LET ivs0 == HotVars(cx, "I", 0)
      mvs0 == HotVars(cx, "I", 1)
      parts == HotParts(s, cx, "hq", "I")
      ivs == [i \in 1..Len(ivs0) |-> VarE(ivs0[i].n, "I")] \o parts
      mvs == [i \in 1..Len(mvs0) |-> VarE(mvs0[i].n, "I")] \o parts
      wholes == HotParts(s, cx, "hq", "T") \o HotParts(s, cx, "hq", "P") \o HotParts(s, cx, "hq", "Q")
      av == VarE(a, "A")
      kv == VarE(k, "I")
      iv(i) == PickOf(Sub_(s, i), ivs)
      mv(i) == PickOf(Sub_(s, i), mvs)
      bin(o, x, y) == N("bin", "I", o, 0, <<x, y>>)
      inv(i) == CASE Rnd(Sub_(s, 30 + i), 8) = 0 -> bin("*", iv(i), iv(i + 1))
                  [] Rnd(Sub_(s, 30 + i), 8) = 1 -> bin("-", bin("*", iv(i), iv(i + 1)), iv(i + 2))
                  [] Rnd(Sub_(s, 30 + i), 8) = 2 -> N("idiv", "I", "", 0, <<iv(i), IF Chance(Sub_(s, 40), 60) THEN Int_(3) ELSE iv(i + 1)>>)
                  [] Rnd(Sub_(s, 30 + i), 8) = 3 -> N("len", "I", "", 0, <<av>>)
                  [] Rnd(Sub_(s, 30 + i), 8) = 4 -> N("neg", "I", "", 0, <<bin("+", iv(i), iv(i + 1))>>)
                  [] Rnd(Sub_(s, 30 + i), 8) = 5 -> N("idx", "I", "", 0, <<av, Int_(Rnd(Sub_(s, 41 + i), 3))>>)
                  [] OTHER -> bin("+", iv(i), bin("*", iv(i + 1), Int_(2)))
      index(i) == CASE Rnd(Sub_(s, 50 + i), 12) < 5 -> kv
                    [] Rnd(Sub_(s, 50 + i), 12) = 5 -> bin("+", kv, Int_(1))
                    [] Rnd(Sub_(s, 50 + i), 12) = 6 -> bin("-", kv, Int_(1))
                    [] Rnd(Sub_(s, 50 + i), 12) = 7 -> Int_(-1)
                    [] Rnd(Sub_(s, 50 + i), 12) = 8 -> bin("-", bin("-", N("len", "I", "", 0, <<av>>), Int_(1)), kv)
                    [] Rnd(Sub_(s, 50 + i), 12) = 9 -> N("mod", "I", "", 0, <<iv(i), N("len", "I", "", 0, <<av>>)>>)
                    [] Rnd(Sub_(s, 50 + i), 12) = 10 -> iv(i)
                    [] OTHER -> bin("*", kv, Int_(2))
      at(i) == N("idx", "I", "", 0, <<av, index(i)>>)
      rhs(i) == CASE Rnd(Sub_(s, 60 + i), 6) < 2 -> at(i)
                  [] Rnd(Sub_(s, 60 + i), 6) = 2 -> bin("+", at(i), at(i + 3))
                  [] OTHER -> inv(i)
      len == N("len", "I", "", 0, <<av>>)
      cmp(o, x, y) == N("bin", "B", o, 0, <<x, y>>)
      \* guards that do (or nearly do) establish that an index is within bounds
      guardOn(x) ==
               <<x, CASE Rnd(Sub_(s, 72), 7) = 0 -> cmp("<", x, len)
                      [] Rnd(Sub_(s, 72), 7) = 1 -> N("and", "B", "", 0, <<cmp(">=", x, Int_(0)), cmp("<", x, len)>>)
                      [] Rnd(Sub_(s, 72), 7) = 2 -> N("not", "B", "", 0, <<N("or", "B", "", 0, <<cmp("<", x, Int_(0)), cmp(">=", x, len)>>)>>)
                      [] Rnd(Sub_(s, 72), 7) = 3 -> cmp("<=", x, len)
                      [] Rnd(Sub_(s, 72), 7) = 4 -> N("and", "B", "", 0, <<cmp("<", x, len), cmp(">=", x, N("neg", "I", "", 0, <<len>>))>>)
                      [] Rnd(Sub_(s, 72), 7) = 5 -> N("not", "B", "", 0, <<cmp(">", x, len)>>)
                      [] OTHER -> N("and", "B", "", 0, <<cmp("!=", len, Int_(0)), cmp("<", x, bin("-", len, Int_(1)))>>)>>
      guard == guardOn(IF Chance(Sub_(s, 70), 60) THEN kv ELSE iv(71))
      assign(x, e) == IF Chance(Sub_(s, 80), 50) THEN N("opset", "U", PickOf(Sub_(s, 81), <<"+", "-">>), 0, <<x, e>>)
                      ELSE N("set", "U", "", 0, <<x, PickOf(Sub_(s, 82), <<e, bin("+", x, e)>>)>>)
      steps == SelectSeq(cx.fs, LAMBDA f : f.rt = "U" /\ Len(f.ps) > 0 /\ f.ps[1].m = 1 /\ f.ps[1].t = "I" /\ Len(f.ps) = 2 /\ f.g = 0 /\ f.ps[2].m = 0 /\ f.ps[2].t = "I")
      base(i) == CASE Rnd(Sub_(s, 90 + i), 5) < 3 -> assign(mv(100 + i), rhs(101 + i))
                   [] Rnd(Sub_(s, 90 + i), 5) = 3 /\ steps # <<>> -> N("call", "U", PickOf(Sub_(s, 110 + i), steps).n, 0, <<mv(111 + i), iv(112 + i)>>)
                   [] OTHER -> N("log", "U", "", 0, <<inv(113 + i)>>)
      whole(i) == LET w == IF Chance(Sub_(s, i + 22), 50) THEN PickOf(Sub_(s, i), SelectSeq(wholes, LAMBDA e2 : e2.k = "var")) ELSE PickOf(Sub_(s, i), wholes)
                      e(j) == IF Chance(Sub_(s, i + j), 60) THEN bin("+", iv(i + j + 1), Int_(Rnd(Sub_(s, i + j + 2), 3))) ELSE Int_(Rnd(Sub_(s, i + j + 3), 6))
                      pe(j) == N("struct", "P", "P", 0, <<e(j), e(j + 5)>>)
                      te(j) == N("tuple", "T", "", 0, <<e(j), e(j + 5)>>)
                      others == HotParts(s, cx, "hr", w.t)
                  IN N("set", "U", "", 0, <<w, CASE Rnd(Sub_(Sub_(s, i + 23), 3), 10) < 6 -> N("call", w.t, "fmk" \o w.t, 0, <<e(15)>>) [] others # <<>> /\ Chance(Sub_(s, i + 20), 65) -> PickOf(Sub_(s, i + 21), others) [] w.t = "P" -> pe(1) [] w.t = "T" -> te(1) [] OTHER -> N("struct", "Q", "Q", 0, <<pe(1), te(11)>>)>>)
      \* an expression over a variable is observed around a change of that variable
      watched(x, y) == CASE Rnd(Sub_(Sub_(s, 140), 1), 5) = 0 -> bin("*", x, y) [] Rnd(Sub_(Sub_(s, 140), 1), 5) = 1 -> bin("-", bin("*", x, Int_(3)), y)
                         [] Rnd(Sub_(Sub_(s, 140), 1), 5) = 2 -> N("neg", "I", "", 0, <<x>>) [] Rnd(Sub_(Sub_(s, 140), 1), 5) = 3 -> bin("+", y, bin("*", x, x))
                         [] OTHER -> N("idiv", "I", "", 0, <<x, Int_(2)>>)
      change(x) == CASE Rnd(Sub_(Sub_(s, 141), 2), 4) < 2 /\ steps # <<>> -> N("call", "U", PickOf(Sub_(s, 142), steps).n, 0, <<x, iv(143)>>)
                     [] Rnd(Sub_(Sub_(s, 141), 2), 4) = 2 -> assign(x, rhs(144))
                     [] OTHER -> N("if", "U", "", 0, <<cmp(PickOf(Sub_(s, 145), <<"<", ">=", "!=">>), iv(146), Int_(Rnd(Sub_(s, 147), 4))), Block("U", <<assign(x, rhs(148))>>, FALSE)>>)
      watch == LET x == mv(149) e == N("log", "U", "", 0, <<watched(x, iv(150))>>) IN
               Block("U", (IF Chance(Sub_(Sub_(s, 151), 4), 60) THEN <<e>> ELSE <<>>) \o <<change(x)>> \o (IF Chance(Sub_(Sub_(s, 152), 5), 60) THEN <<e>> ELSE <<>>), FALSE)
      r == Rnd(Sub_(s, 120), 20)
  IN IF wholes # <<>> /\ Chance(Sub_(s, 121), 35) THEN
       (IF Chance(Sub_(s, 122), 35) THEN whole(130) ELSE
        LET x == IF parts # <<>> /\ Chance(Sub_(s, 123), 80) THEN PickOf(Sub_(s, 124), parts) ELSE kv
            g == IF Chance(Sub_(Sub_(s, 125), 1), 70) THEN <<x, N("and", "B", "", 0, <<cmp(">=", x, Int_(0)), cmp("<", x, len)>>)>> ELSE guardOn(x) IN
        N("if", "U", "", 0, <<g[2], Block("U", <<N("log", "U", "", 0, <<N("idx", "I", "", 0, <<av, g[1]>>)>>), whole(130),
                                                N("log", "U", "", 0, <<N("idx", "I", "", 0, <<av, g[1]>>)>>)>>, FALSE)>>))
     ELSE
     CASE r < 5 -> base(1)
       [] r = 5 -> N("log", "U", "", 0, <<inv(2)>>)
       [] r = 6 -> N("log", "U", "", 0, <<at(3)>>)
       [] r = 7 -> N("set", "U", "", 0, <<N("idx", "I", "", 0, <<av, IF Chance(Sub_(s, 83), 70) THEN kv ELSE Int_(0)>>), inv(4)>>)
       [] r = 8 -> N("if", "U", "", 0, <<cmp(PickOf(Sub_(s, 84), <<"<", ">=", "==">>), iv(5), Int_(Rnd(Sub_(s, 85), 5))), Block("U", <<base(6)>>, FALSE)>>)
       [] r = 9 -> N("append", "U", "", 0, <<av, inv(7)>>)
       [] r = 10 -> N("let", "O", "po", 0, <<N("popb", "O", "", 0, <<av>>)>>)
       [] r \in {11, 12} -> LET g == guard IN N("if", "U", "", 0, <<g[2], Block("U", <<N("log", "U", "", 0, <<N("idx", "I", "", 0, <<av, g[1]>>)>>)>>, FALSE)>>)
       [] r = 13 -> N("if", "U", "", 0, <<cmp(">", iv(8), Int_(3)), Block("U", <<base(9)>>, FALSE), Block("U", <<base(10)>>, FALSE)>>)
       [] r > 14 -> watch
       [] OTHER -> IF steps = <<>> THEN base(11) ELSE N("call", "U", PickOf(Sub_(s, 86), steps).n, 0, <<mv(12), iv(13)>>)
RECURSIVE HotStmts(_, _, _, _, _)
HotStmts(s, cx, k, a, n) == IF n = 0 THEN <<>> ELSE <<HotStmt(Sub_(s, n), cx, k, a)>> \o HotStmts(Sub_(s, 33), cx, k, a, n - 1)

\* { let mut hv = ..; let mut ha = [..]; loop ..; log(..) }
GenHot(s, cx) ==
  LET a == "ha"
      k == "hk"
      seen == {i \in 1..Len(cx.vs) : Visible(cx, i) /\ cx.vs[i].t = "I"}
      ints == SelectSeq([i \in 1..Len(cx.vs) |-> IF i \in seen THEN cx.vs[i] ELSE Var("", "", 0)], LAMBDA v : v.t = "I")
      qt == IF Chance(Sub_(s, 40), 40) THEN PickOf(Sub_(s, 41), <<"T", "Q", "Q", "P">>) ELSE ""
      cx1 == [cx EXCEPT !.vs = ints \o <<Var("hv", "I", 2), Var(a, "A", 2)>> \o (IF qt = "" THEN <<>> ELSE <<Var("hq", qt, 2), Var("hr", qt, 0)>>)]
      cxk == [cx1 EXCEPT !.vs = Append(@, Var(k, "I", 0))]
      len == N("len", "I", "", 0, <<VarE(a, "A")>>)
      body == HotStmts(Sub_(s, 1), IF Chance(Sub_(s, 2), 40) THEN cxk ELSE cx1, k, a, 1 + Rnd(Sub_(s, 3), 4) + W.only)
      lim == CASE Rnd(Sub_(s, 4), 6) < 3 -> len
               [] Rnd(Sub_(s, 4), 6) = 3 -> Int_(3)
               [] Rnd(Sub_(s, 4), 6) = 4 -> N("bin", "I", "+", 0, <<len, Int_(1)>>)
               [] OTHER -> N("bin", "I", "-", 0, <<len, Int_(1)>>)
      low == CASE Rnd(Sub_(s, 5), 6) < 4 -> Int_(0)
               [] Rnd(Sub_(s, 5), 6) = 4 -> Int_(1)
               [] OTHER -> Int_(-1)
      up == N("opset", "U", "+", 0, <<VarE(k, "I"), Int_(1)>>)
      down == N("opset", "U", "-", 0, <<VarE(k, "I"), Int_(1)>>)
      stop(o, e) == N("if", "U", "", 0, <<N("bin", "B", o, 0, <<VarE(k, "I"), e>>), Block("U", <<N("break", "N", "", 0, <<>>)>>, FALSE)>>)
      many == stop(">", Int_(6))
      r == Rnd(Sub_(s, 6), 6)
      loop == CASE r < 2 -> <<N("for", k, "", 0, <<N("range", "A", "", IF Chance(Sub_(s, 7), 20) THEN 1 ELSE 0, <<low, lim>>), Block("U", body, FALSE)>>)>>
                [] r = 2 -> <<N("let", "I", k, 1, <<low>>), N("loop", "U", "", 0, <<Block("U", <<stop(">=", lim), many>> \o body \o <<up>>, FALSE)>>)>>
                [] r = 3 -> <<N("let", "I", k, 1, <<low>>), N("loop", "U", "", 0, <<Block("U", body \o <<up, stop(">", lim), many>>, FALSE)>>)>>
                [] r = 4 -> <<N("let", "I", k, 1, <<N("bin", "I", "-", 0, <<lim, Int_(1)>>)>>),
                              N("loop", "U", "", 0, <<Block("U", <<stop("<", Int_(0))>> \o body \o <<down>>, FALSE)>>)>>
                [] OTHER -> <<N("for", k, "", 0, <<N("each", "A", "", 0, <<VarE(a, "A")>>), Block("U", body, FALSE)>>)>>
      arr == N("array", "A", "", 0, [i \in 1..(2 + Rnd(Sub_(s, 8), 3)) |-> Int_(Rnd(Sub_(s, 10 + i), 9))])
  IN Block("U", <<N("let", "I", "hv", 1, <<Int_(Rnd(Sub_(s, 9), 4))>>), N("let", "A", a, 1, <<arr>>)>>
                \o (IF qt = "" THEN <<>> ELSE <<N("let", qt, "hr", 0, <<IF Rnd(Sub_(Sub_(s, 43), 2), 10) < 4 THEN N("call", qt, "fmk" \o qt, 0, <<Int_(Rnd(Sub_(s, 46), 6))>>) ELSE GenE(Sub_(s, 43), qt, Operand(cx), 1)>>),
                                              N("let", qt, "hq", 1, <<IF Chance(Sub_(s, 44), 40) THEN VarE("hr", qt) ELSE Leaf(Sub_(s, 42), qt, cx, 0)>>)>>)
                \o loop \o <<N("log", "U", "", 0, <<VarE("hv", "I")>>), N("log", "U", "", 0, <<len>>)>>, FALSE)

\* A mutable aggregate (or a part of it) is passed by value, and a later argument of the same call changes it: by an
\* assignment, through a mutable argument, on one branch only, to a part, to the whole, to something disjoint.
ClashFuns == <<
  Fun("hcT", <<Par("p", "T", 0), Par("q", "I", 0)>>, "I", Block("I", <<N("bin", "I", "+", 0, <<
     N("bin", "I", "*", 0, <<N("bin", "I", "+", 0, <<N("bin", "I", "*", 0, <<N("tupix", "I", "", 0, <<VarE("p", "T")>>), Int_(50)>>),
                                                     N("tupix", "I", "", 1, <<VarE("p", "T")>>)>>), Int_(50)>>), VarE("q", "I")>>)>>, TRUE), 0),
  Fun("hcP", <<Par("p", "P", 0), Par("q", "I", 0)>>, "I", Block("I", <<N("bin", "I", "+", 0, <<
     N("bin", "I", "*", 0, <<N("bin", "I", "+", 0, <<N("bin", "I", "*", 0, <<N("fld", "I", "x", 0, <<VarE("p", "P")>>), Int_(50)>>),
                                                     N("fld", "I", "y", 0, <<VarE("p", "P")>>)>>), Int_(50)>>), VarE("q", "I")>>)>>, TRUE), 0),
  Fun("hcA", <<Par("p", "A", 0), Par("q", "I", 0)>>, "I", Block("I", <<N("bin", "I", "+", 0, <<
     N("bin", "I", "*", 0, <<N("bin", "I", "+", 0, <<N("bin", "I", "*", 0, <<N("idx", "I", "", 0, <<VarE("p", "A"), Int_(0)>>), Int_(50)>>),
                                                     N("idx", "I", "", 0, <<VarE("p", "A"), Int_(-1)>>)>>), Int_(50)>>), VarE("q", "I")>>)>>, TRUE), 0),
  Fun("hb", <<Par("p", "I", 1)>>, "I", Block("I", <<N("opset", "U", "+", 0, <<VarE("p", "I"), Int_(3)>>), VarE("p", "I")>>, TRUE), 0),
  Fun("hs", <<Par("p", "I", 1), Par("q", "I", 0)>>, "I", Block("I", <<N("opset", "U", "+", 0, <<VarE("p", "I"), Int_(3)>>),
                                                     N("bin", "I", "*", 0, <<VarE("p", "I"), VarE("q", "I")>>)>>, TRUE), 0)
>>
GenClash(s, cx, d) ==
  LET rt == PickOf(Sub_(s, 1), <<"T", "P", "A", "AT", "T", "P", "A", "Q">>)
      x == "cv"
      cx1 == [cx EXCEPT !.vs = Append(@, Var(x, rt, 1))]
      pcx == Pure(Operand(cx1))
      at == CASE rt = "Q" -> PickOf(Sub_(s, 2), <<"P", "T">>) [] rt = "AT" -> "T" [] OTHER -> rt
      path(i, t) == LET sh == Shapes(rt, t) IN IF sh = <<>> THEN NoN ELSE GenPath(Sub_(s, i), VarE(x, rt), PickOf(Sub_(s, i + 1), sh), pcx, 0)
      seen == path(10, at)
      wt == PickOf(Sub_(s, 12), <<"I", "I", "I", "T", "P", rt, at>>)
      w0 == path(13, wt)
      w == IF w0.k = "none" THEN path(13, "I") ELSE w0
      val(i) == IF Chance(Sub_(s, i), 50) THEN Int_(Rnd(Sub_(s, i + 1), 9)) ELSE GenE(Sub_(s, i + 2), "I", Operand(cx), 0)
      wv == IF Chance(Sub_(s, 20), 60) \/ w.t # "I" THEN GenE(Sub_(s, 21), w.t, pcx, 0) ELSE val(22)
      set == N("set", "U", "", 0, <<w, wv>>)
      ip == path(25, "I")
      r == Rnd(Sub_(s, 30), 10)
      cond == GenE(Sub_(s, 31), "B", Operand(cx1), 0)
      arg == CASE r < 4 -> Block("I", <<set, val(32)>>, TRUE)
               [] r = 4 -> N("call", "I", "hb", 0, <<ip>>)
               [] r = 5 -> N("if", "I", "", 0, <<cond, Block("I", <<set, val(35)>>, TRUE), Block("I", <<val(38)>>, TRUE)>>)
               [] r = 6 -> N("bin", "I", "+", 0, <<ip, Block("I", <<set, val(32)>>, TRUE)>>)
               [] r = 7 -> Block("I", <<N("for", "c", "", 0, <<N("range", "A", "", 0, <<Int_(0), Int_(2)>>), Block("U", <<set>>, FALSE)>>), ip>>, TRUE)
               [] r = 8 -> N("if", "I", "", 0, <<N("bin", "B", ">", 0, <<N("call", "I", "hb", 0, <<ip>>), Int_(4)>>), Block("I", <<val(35)>>, TRUE), Block("I", <<ip>>, TRUE)>>)
               [] OTHER -> N("call", "I", "hs", 0, <<ip, Block("I", <<set, val(32)>>, TRUE)>>)
      call == CASE Rnd(Sub_(s, 40), 6) < 4 -> N("call", "I", "hc" \o at, 0, <<seen, arg>>)
                [] Rnd(Sub_(s, 40), 6) = 4 -> N("bin", "I", "+", 0, <<ip, N("call", "I", "hc" \o at, 0, <<seen, arg>>)>>)
                [] OTHER -> N("bin", "I", "-", 0, <<N("call", "I", "hc" \o at, 0, <<seen, arg>>), ip>>)
  IN Block("U", <<N("let", rt, x, 1, <<Leaf(Sub_(s, 3), rt, cx, 0)>>), N("log", "U", "", 0, <<call>>), N("log", "U", "", 0, <<ip>>)>>, FALSE)

\* match on a value of a random matchable type
GenMatch(s, t, cx, d) ==
  LET st == PickOf(Sub_(s, 1), IF W.d > 0 /\ Chance(Sub_(s, 21), 50) THEN <<"DO">> ELSE <<"I", "B", "O", "V", "V", "O">>)
      e == GenE(Sub_(s, 2), st, Operand(cx), d - 1)
      vt == IF st = "DO" THEN "D" ELSE "I"
      n1 == NewName(Sub_(s, 3))
      n2 == LET y == NewName(Sub_(s, 4)) IN IF y = n1 THEN n1 \o "2" ELSE y
      with(ns) == [cx EXCEPT !.vs = @ \o [i \in 1..Len(ns) |-> Var(ns[i], vt, 0)]]
      body(i, ns) == IF t = "U" THEN GenBlock(Sub_(s, 10 + i), "U", with(ns), d - 1, 1 + Rnd(Sub_(s, 30 + i), 2))
                     ELSE GenE(Sub_(s, 10 + i), t, with(ns), d - 1)
      arm(i, pat, ns) == N("arm", t, "", 0, <<pat, body(i, ns)>>)
      bnd(ns) == [i \in 1..Len(ns) |-> N("bnd", "I", ns[i], 0, <<>>)]
      any == arm(9, N("pat", "", "_", 0, <<>>), <<>>)
      lit(i) == arm(i, N("pat", "", "int", i - 2, <<>>), <<>>)
      some == arm(1, N("pat", "", "Some", 0, bnd(<<n1>>)), <<n1>>)
      none == arm(2, N("pat", "", "None", 0, <<>>), <<>>)
      aA == arm(1, N("pat", "", "E::A", 0, bnd(<<n1>>)), <<n1>>)
      aB == arm(2, N("pat", "", "E::B", 0, bnd(<<n1, n2>>)), <<n1, n2>>)
      aC == arm(3, N("pat", "", "E::C", 0, <<>>), <<>>)
      r == Rnd(Sub_(s, 5), 4)
      arms == CASE st = "I" -> (IF r = 0 THEN <<lit(1)>> ELSE IF r = 1 THEN <<lit(3), lit(1)>> ELSE <<lit(2), lit(3), lit(4)>>) \o <<any>>
                [] st = "B" -> IF r < 2 THEN <<arm(1, N("pat", "", "bool", 1, <<>>), <<>>), arm(2, N("pat", "", "bool", 0, <<>>), <<>>)>>
                               ELSE <<arm(1, N("pat", "", "bool", 0, <<>>), <<>>), any>>
                [] st \in {"O", "DO"} -> IF r = 0 THEN <<some, none>> ELSE IF r = 1 THEN <<none, some>>
                               ELSE IF r = 2 THEN <<some, any>> ELSE <<none, any>>
                [] OTHER -> IF r = 0 THEN <<aA, aB, aC>> ELSE IF r = 1 THEN <<aC, aA, any>>
                            ELSE IF r = 2 THEN <<aB, any>> ELSE <<aB, aC, aA>>
  IN N("match", t, "", 0, <<e>> \o arms)

\* expressions of type t at depth d
GenE(s, t, cx0, d) ==
  LET cx == cx0
      ox == Operand(cx0)
      hasP == HasPlace(cx, t, 0)
      leafW == IF d <= 0 THEN 8 ELSE 2
      fs == Callable(ox, t)
      hasF == HasPlace(cx, "F", 0)
      alts ==
        << <<leafW, "leaf">> >>
        \o (IF hasP THEN << <<IF d <= 0 THEN 20 ELSE 8, "place">> >> ELSE <<>>)
        \o (IF d <= 0 THEN <<>> ELSE
            (CASE t = "I" -> << <<7, "bin">>, <<W.eff, "tap">>, <<IF cx.pure THEN 0 ELSE W.fail, "div">>, <<1, "neg">>, <<1, "src">>,
                                <<IF HasPlace(cx, "A", 0) THEN W.arr ELSE 0, "len">>,
                                <<IF hasF /\ ~cx.pure THEN W.lam ELSE 0, "callf">>, <<W.loop \div 3, "loop">> >>
               [] t = "B" -> << <<9, "cmp">>, <<5, "logic">>, <<2, "not">>, <<W.eff \div 2, "tapb">> >>
               [] t = "T" -> << <<8, "build">> >>
               [] t = "P" -> << <<8, "build">> >>
               [] t = "Q" -> << <<8, "build">> >>
               [] t = "A" -> << <<8, "build">> >>
               [] t = "AT" -> << <<6, "build">> >>
               [] t = "AA" -> << <<6, "build">> >>
               [] t = "O" -> << <<6, "build">> >>
               [] t = "V" -> << <<6, "build">> >>
               [] t = "S" -> << <<8, "fstr">> >>
               [] t = "F" -> << <<8, "lam">>, <<3, "fnref">> >>
               [] t = "DP" -> << <<6, "build">> >>
               [] t = "DA" -> << <<6, "build">> >>
               [] t = "DO" -> << <<6, "build">> >>
               [] OTHER -> <<>>)
            \o << <<2, "if">>, <<W.blk, "block">>, <<W.match \div 2, "match">>, <<W.jump \div 2, "ifjump">> >>
            \o (IF fs # <<>> THEN << <<W.fn, "call">> >> ELSE <<>>))
      k == PickW(Sub_(s, 1), alts)
      sub(i, ty) == GenE(Sub_(s, 20 + i), ty, ox, d - 1)
      later(i, ty) == GenE(Sub_(s, 20 + i), ty, Pure(ox), d - 1)
  IN
  CASE k = "leaf" -> Leaf(Sub_(s, 2), t, cx, d)
    [] k = "place" -> GenPlace(Sub_(s, 2), t, ox, d - 1, 0, {})
    [] k = "bin" -> N("bin", "I", PickW(Sub_(s, 3), << <<4, "+">>, <<3, "-">>, <<2, "*">> >>), 0, <<sub(1, "I"), sub(2, "I")>>)
    [] k = "tap" -> N("tap", "I", "", 0, <<sub(1, "I")>>)
    [] k = "div" -> N(PickOf(Sub_(s, 3), <<"idiv", "rem", "mod">>), "I", "", 0,
                      <<sub(1, "I"), IF Chance(Sub_(s, 4), 60) THEN Int_(1 + Rnd(Sub_(s, 5), 4)) ELSE sub(2, "I")>>)
    [] k = "neg" -> N("neg", "I", "", 0, <<sub(1, "I")>>)
    [] k = "src" -> N("src", "I", "", 0, <<sub(1, "I")>>)
    [] k = "len" -> N("len", "I", "", 0, <<GenPlace(Sub_(s, 3), "A", ox, d - 1, 0, {})>>)
    [] k = "callf" -> N("callf", "I", "", 0, <<GenPlace(Sub_(s, 3), "F", ox, d - 1, 0, {}),
                      LET q == sub(1, "I") IN IF IsPlace(q) THEN N("bin", "I", "+", 0, <<q, Int_(0)>>) ELSE q>>)
    [] k = "loop" -> GenLoop(Sub_(s, 3), t, cx, d)
    [] k = "cmp" -> LET ct == PickW(Sub_(s, 3), << <<8, "I">>, <<1, "B">>, <<1, "T">>, <<1, "O">>, <<W.str, "S">> >>) IN
                    N("bin", "B", IF ct = "I" THEN PickOf(Sub_(s, 4), <<"<", "<=", ">", ">=", "==", "!=">>)
                                  ELSE PickOf(Sub_(s, 4), <<"==", "!=">>), 0, <<sub(1, ct), sub(2, ct)>>)
    [] k = "logic" -> N(PickOf(Sub_(s, 3), <<"and", "or">>), "B", "", 0, <<sub(1, "B"), sub(2, "B")>>)
    [] k = "not" -> N("not", "B", "", 0, <<sub(1, "B")>>)
    [] k = "tapb" -> N("tapb", "B", "", 0, <<Int_(Rnd(Sub_(s, 3), 20)), sub(1, "B")>>)
    [] k = "fstr" -> N("fstr", "S", "", 0, <<sub(1, "S"), N("str", "S", ",", 0, <<>>), sub(2, PickOf(Sub_(s, 3), <<"I", "S", "B">>))>>)
    [] k = "lam" -> LET px == PickOf(Sub_(s, 3), <<"q", "r", "a">>)
                        cx1 == [ox EXCEPT !.vs = Append(@, Var(px, "I", 0)), !.ls = <<>>, !.rt = "I", !.pure = FALSE]
                    IN N("lam", "F", "", 0, <<N("par", "I", px, 0, <<>>),
                         IF Chance(Sub_(s, 4), 50) THEN GenE(Sub_(s, 5), "I", cx1, d - 1)
                         ELSE GenBlock(Sub_(s, 5), "I", cx1, d - 1, 1 + Rnd(Sub_(s, 6), 2))>>)
    [] k = "fnref" -> LET q == SelectSeq(cx.fs, LAMBDA f : f.rt = "I" /\ Len(f.ps) = 1 /\ f.ps[1].t = "I" /\ f.ps[1].m = 0 /\ f.g = 0) IN
                      IF q = <<>> THEN Leaf(Sub_(s, 2), t, cx, d) ELSE N("fnref", "F", PickOf(Sub_(s, 3), q).n, 0, <<>>)
    [] k = "build" ->
         (CASE t = "T" -> N("tuple", t, "", 0, <<sub(1, "I"), sub(2, "I")>>)
            [] t = "P" -> N("struct", t, "P", 0, <<sub(1, "I"), sub(2, "I")>>)
            [] t = "Q" -> N("struct", t, "Q", 0, <<sub(1, "P"), sub(2, "T")>>)
            [] t = "A" -> N("array", t, "", 0, [i \in 1..(2 + Rnd(Sub_(s, 3), 2)) |-> sub(i, "I")])
            [] t = "AT" -> N("array", t, "", 0, <<sub(1, "T"), sub(2, "T")>>)
            [] t = "AA" -> N("array", t, "", 0, <<later(1, "A"), later(2, "A")>>)
            [] t = "O" -> N("ctor", t, "Some", 0, <<sub(1, "I")>>)
            [] t = "V" -> IF Chance(Sub_(s, 3), 50) THEN N("ctor", t, "E::A", 0, <<sub(1, "I")>>)
                          ELSE N("ctor", t, "E::B", 0, <<sub(1, "I"), sub(2, "I")>>)
            [] t = "DP" -> N("tuple", t, "", 0, <<sub(1, "D"), later(2, "D")>>)
            [] t = "DA" -> N("array", t, "", 0, <<later(1, "D"), later(2, "D")>>)
            [] OTHER -> N("ctor", t, "Some", 0, <<later(1, "D")>>))
    [] k = "if" -> N("if", t, "", 0, <<sub(1, "B"), Block(t, <<GenE(Sub_(s, 22), t, ox, d - 1)>>, TRUE),
                                       Block(t, <<GenE(Sub_(s, 23), t, ox, d - 1)>>, TRUE)>>)
    [] k = "block" -> GenBlock(Sub_(s, 3), t, ox, d - 1, 1 + Rnd(Sub_(s, 4), 2))
    [] k = "match" -> GenMatch(Sub_(s, 3), t, ox, d)
    [] k = "ifjump" -> LET j == GenJump(Sub_(s, 3), ox, 0) IN
                       IF j.k = "none" THEN Leaf(Sub_(s, 2), t, cx, d)
                       ELSE N("if", t, "", 0, <<sub(1, "B"), Block("N", <<j>>, TRUE), Block(t, <<sub(2, t)>>, TRUE)>>)
    [] OTHER -> LET f == PickOf(Sub_(s, 3), fs)
                    args == GenArgs(Sub_(s, 4), f.ps, 1, ox, d - 1, {})
                IN IF HasNone(args) THEN Leaf(Sub_(s, 2), t, cx, d) ELSE N("call", t, f.n, 0, args)

LetTypes == << <<9, "I">>, <<2, "B">>, <<3, "T">>, <<2, "P">>, <<W.nest, "Q">>, <<W.arr, "A">>, <<W.nest, "AT">>, <<W.nest, "AA">>,
               <<1, "O">>, <<W.match \div 2, "V">>, <<W.str, "S">>, <<W.lam, "F">>, <<2 * W.d, "D">>, <<W.d, "DP">>,
               <<W.d \div 2, "DA">>, <<W.d \div 2, "DO">> >>

\* one statement: [e |-> statement, vs |-> variables afterwards]
GenStmt(s, cx, d) ==
  LET alts == IF W.only > 0 /\ d = W.depth THEN << <<1, "hot">> >> ELSE
              << <<6, "let">>, <<W.set, "set">>, <<W.set \div 2, "opset">>, <<3, "log">> >>
              \o (IF d <= 0 THEN <<>> ELSE
                  << <<3, "if">>, <<W.loop, "loop">>, <<W.loop, "for">>, <<W.match, "match">>, <<W.jump, "ifjump">>, <<IF cx.pure THEN 0 ELSE W.hot, "hot">>, <<IF cx.pure THEN 0 ELSE W.clash, "clash">>,
                     <<1, "block">>, <<W.fn, "call">>, <<2, "disc">> >>)
              \o << <<W.arr, "resize">>, <<IF cx.pure THEN 0 ELSE W.fail \div 2, "boom">>, <<W.d, "dlog">> >>
      k == PickW(Sub_(s, 1), alts)
      ox == Operand(cx)
      same(e) == [e |-> e, vs |-> cx.vs]
      logE == N("log", "U", "", 0, <<GenE(Sub_(s, 3), "I", ox, d - 1)>>)
  IN
  CASE k = "let" -> LET t == PickW(Sub_(s, 2), LetTypes)
                        m == IF Chance(Sub_(s, 3), 60) THEN 1 ELSE 0
                        x == NewName(Sub_(s, 4))
                        e == GenE(Sub_(s, 5), t, ox, d)
                    IN [e |-> N("let", t, x, m, <<e>>), vs |-> Append(cx.vs, Var(x, t, 2 * m))]
    [] k = "set" -> LET t == PickW(Sub_(s, 2), LetTypes)
                        p == GenPlace(Sub_(s, 3), t, ox, d - 1, 1, {})
                        p2 == IF p.k = "none" THEN GenPlace(Sub_(s, 3), "I", ox, d - 1, 1, {}) ELSE p
                    IN IF p2.k = "none" THEN same(logE)
                       ELSE same(N("set", "U", "", 0, <<p2, GenE(Sub_(s, 4), p2.t, ox, d)>>))
    [] k = "opset" -> LET p == GenPlace(Sub_(s, 3), "I", ox, -1, 1, {}) IN   \* literal indices: finding F2
                      IF p.k = "none" THEN same(logE)
                      ELSE same(N("opset", "U", PickOf(Sub_(s, 2), <<"+", "-", "*">>), 0, <<p, GenE(Sub_(s, 4), "I", ox, d - 1)>>))
    [] k = "log" -> same(logE)
    [] k = "if" -> IF Chance(Sub_(s, 2), 50)
                   THEN same(N("if", "U", "", 0, <<GenE(Sub_(s, 3), "B", ox, d - 1), GenBlock(Sub_(s, 4), "U", cx, d - 1, 1 + Rnd(Sub_(s, 6), 2))>>))
                   ELSE same(N("if", "U", "", 0, <<GenE(Sub_(s, 3), "B", ox, d - 1), GenBlock(Sub_(s, 4), "U", cx, d - 1, 1 + Rnd(Sub_(s, 6), 2)),
                                                  GenBlock(Sub_(s, 5), "U", cx, d - 1, 1)>>))
    [] k = "loop" -> same(GenLoop(Sub_(s, 2), "U", cx, d))
    [] k = "hot" -> same(GenHot(Sub_(s, 2), cx))
    [] k = "clash" -> same(GenClash(Sub_(s, 2), cx, d))
    [] k = "for" -> same(GenFor(Sub_(s, 2), cx, d))
    [] k = "match" -> same(GenMatch(Sub_(s, 2), "U", cx, d))
    [] k = "ifjump" -> LET b == GenStmts(Sub_(s, 6), cx, 0, Rnd(Sub_(s, 5), 2), <<>>)
                           j == GenJump(Sub_(s, 3), b.cx, d - 1) IN
                       IF j.k = "none" THEN same(logE)
                       ELSE same(N("if", "U", "", 0, <<GenE(Sub_(s, 4), "B", ox, d - 1), Block("U", Append(b.c, j), FALSE)>>))
    [] k = "block" -> same(GenBlock(Sub_(s, 2), "U", cx, d - 1, 1 + Rnd(Sub_(s, 3), 2)))
    [] k = "call" -> LET fs == Callable(ox, "U") IN
                     IF fs = <<>> THEN same(logE)
                     ELSE LET f == PickOf(Sub_(s, 2), fs)
                              args == GenArgs(Sub_(s, 3), f.ps, 1, ox, d - 1, {})
                          IN IF HasNone(args) THEN same(logE) ELSE same(N("call", "U", f.n, 0, args))
    [] k = "disc" -> LET t == PickW(Sub_(s, 2), << <<3, "I">>, <<1, "T">>, <<3 * W.d, "D">>, <<W.d, "DP">> >>) IN
                     same(GenE(Sub_(s, 3), t, ox, d))
    [] k = "resize" -> LET p == GenPlace(Sub_(s, 3), "A", cx, 0, 2, {}) IN
                       IF p.k # "var" THEN same(logE)
                       ELSE LET r == Rnd(Sub_(s, 2), 4) IN
                            IF r = 0 THEN same(N("append", "U", "", 0, <<p, GenE(Sub_(s, 4), "I", ox, d - 1)>>))
                            ELSE IF r = 1 THEN same(N("prepend", "U", "", 0, <<p, GenE(Sub_(s, 4), "I", ox, d - 1)>>))
                            ELSE LET x == NewName(Sub_(s, 5)) IN
                                 [e |-> N("let", "O", x, 0, <<N(IF r = 2 THEN "popb" ELSE "popf", "O", "", 0, <<p>>)>>),
                                  vs |-> Append(cx.vs, Var(x, "O", 0))]
    [] k = "boom" -> IF d > 0 THEN same(N("if", "U", "", 0, <<GenE(Sub_(s, 3), "B", ox, d - 1),
                             Block("U", <<N(PickOf(Sub_(s, 4), <<"boom", "boom", "panic">>), "U", "", 0, <<Int_(Rnd(Sub_(s, 2), 9))>>)>>, FALSE)>>))
                     ELSE same(logE)
    [] k = "dlog" -> LET p == GenPlace(Sub_(s, 3), "D", ox, 0, 0, {}) IN
                     IF p.k = "none" THEN same(logE) ELSE same(N("log", "U", "", 0, <<N("fld", "I", "l", 0, <<p>>)>>))
    [] OTHER -> same(logE)

GenStmts(s, cx, d, n, acc) ==
  IF n = 0 THEN [c |-> acc, cx |-> cx]
  ELSE LET r == GenStmt(Sub_(s, n), cx, d) IN
       GenStmts(Sub_(s, 70 + n), [cx EXCEPT !.vs = r.vs], d, n - 1, Append(acc, r.e))

-----------------------------------------------------------------------------
\* Programs

\* unannotated generic functions, used at several types
GenFuns == <<
  Fun("gid", <<Par("v", "?", 0)>>, "?", Block("?", <<VarE("v", "?")>>, TRUE), 1),
  Fun("gpair", <<Par("v", "?", 0), Par("w", "?", 0)>>, "?", Block("?", <<N("tuple", "?", "", 0, <<VarE("v", "?"), VarE("w", "?")>>)>>, TRUE), 1),
  Fun("gset", <<Par("v", "?", 1), Par("w", "?", 0)>>, "U", Block("U", <<N("set", "U", "", 0, <<VarE("v", "?"), VarE("w", "?")>>)>>, FALSE), 1),
  Fun("gmax", <<Par("v", "?", 0), Par("w", "?", 0)>>, "?",
      Block("?", <<N("if", "?", "", 0, <<N("bin", "B", "<", 0, <<VarE("v", "?"), VarE("w", "?")>>),
                   Block("?", <<VarE("w", "?")>>, TRUE), Block("?", <<VarE("v", "?")>>, TRUE)>>)>>, TRUE), 1),
  Fun("gapp", <<Par("f", "F", 0), Par("v", "?", 0)>>, "?",
      Block("?", <<N("callf", "?", "", 0, <<VarE("f", "F"), N("callf", "?", "", 0, <<VarE("f", "F"), VarE("v", "?")>>)>>)>>, TRUE), 1),
  Fun("gsum", <<Par("v", "?", 0), Par("w", "?", 0)>>, "?",
      Block("?", <<N("bin", "?", "+", 0, <<N("bin", "?", "*", 0, <<VarE("v", "?"), VarE("w", "?")>>), VarE("v", "?")>>)>>, TRUE), 1),
  Fun("gswap", <<Par("v", "?", 1), Par("w", "?", 1)>>, "U",
      Block("U", <<N("let", "?", "t", 0, <<VarE("v", "?")>>), N("set", "U", "", 0, <<VarE("v", "?"), VarE("w", "?")>>),
                   N("set", "U", "", 0, <<VarE("w", "?"), VarE("t", "?")>>)>>, FALSE), 1),
  Fun("gnth", <<Par("v", "?", 0), Par("w", "I", 0)>>, "?", Block("?", <<N("idx", "?", "", 0, <<VarE("v", "?"), N("mod", "I", "", 0, <<VarE("w", "I"), Int_(2)>>)>>)>>, TRUE), 1)
>>
GenSigs == <<
  Sig("gid", <<Par("v", "I", 0)>>, "I", 1), Sig("gid", <<Par("v", "T", 0)>>, "T", 1), Sig("gid", <<Par("v", "A", 0)>>, "A", 1),
  Sig("gid", <<Par("v", "S", 0)>>, "S", 1), Sig("gid", <<Par("v", "V", 0)>>, "V", 1),
  Sig("gpair", <<Par("v", "I", 0), Par("w", "I", 0)>>, "T", 1),
  Sig("gset", <<Par("v", "I", 1), Par("w", "I", 0)>>, "U", 1), Sig("gset", <<Par("v", "T", 1), Par("w", "T", 0)>>, "U", 1),
  Sig("gset", <<Par("v", "A", 1), Par("w", "A", 0)>>, "U", 1), Sig("gset", <<Par("v", "S", 1), Par("w", "S", 0)>>, "U", 1),
  Sig("gmax", <<Par("v", "I", 0), Par("w", "I", 0)>>, "I", 1),
  Sig("gapp", <<Par("f", "F", 0), Par("v", "I", 0)>>, "I", 1),
  Sig("gsum", <<Par("v", "I", 0), Par("w", "I", 0)>>, "I", 1),
  Sig("gswap", <<Par("v", "I", 1), Par("w", "I", 1)>>, "U", 1), Sig("gswap", <<Par("v", "A", 1), Par("w", "A", 1)>>, "U", 1),
  Sig("gnth", <<Par("v", "A", 0), Par("w", "I", 0)>>, "I", 1), Sig("gnth", <<Par("v", "AT", 0), Par("w", "I", 0)>>, "T", 1)
>>

ParTypes == << <<8, "I">>, <<1, "B">>, <<3, "T">>, <<2, "P">>, <<W.arr, "A">>, <<W.nest, "Q">>, <<W.nest, "AT">>, <<1, "O">>,
               <<W.lam, "F">>, <<2 * W.d, "D">>, <<W.d, "DP">> >>
RetTypes == << <<8, "I">>, <<4, "U">>, <<1, "B">>, <<2, "T">>, <<1, "P">>, <<W.arr \div 2, "A">>, <<2 * W.d, "D">>, <<W.d \div 2, "DP">> >>
ParNames == <<"p", "q", "r">>

\* a recursive function counting its first parameter down
GenRecFun(s, name, fs) ==
  LET ps == <<Par("n", "I", 0), Par("p", PickOf(Sub_(s, 1), <<"I", "I", "T">>), 0)>>
      rt == PickOf(Sub_(s, 2), <<"I", "T">>)
      self == Sig(name, ps, rt, 0)
      cx == [vs |-> <<Var("n", "I", 0), Var("p", ps[2].t, 0)>>, ls |-> <<>>, rt |-> rt, fs |-> fs, ld |-> 1, pure |-> FALSE]
      base == GenE(Sub_(s, 3), rt, cx, 1)
      rc == N("call", rt, name, 0, <<N("bin", "I", "-", 0, <<VarE("n", "I"), Int_(1)>>), GenE(Sub_(s, 4), ps[2].t, cx, 1)>>)
      rec == GenStmts(Sub_(s, 5), cx, 1, Rnd(Sub_(s, 6), 2), <<>>)
      out == IF rt = "I" /\ Chance(Sub_(s, 7), 60) THEN N("bin", "I", "+", 0, <<rc, GenE(Sub_(s, 8), "I", rec.cx, 0)>>) ELSE rc
  IN Fun(name, ps, rt, Block(rt, <<N("if", rt, "", 0, <<
        N("or", "B", "", 0, <<N("bin", "B", "<=", 0, <<VarE("n", "I"), Int_(0)>>),
                              N("bin", "B", ">", 0, <<VarE("n", "I"), Int_(4)>>)>>), Block(rt, <<base>>, TRUE), Block(rt, Append(rec.c, out), TRUE)>>)>>, TRUE), 0)

GenFun(s, name, fs) ==
  LET np == 1 + Rnd(Sub_(s, 1), 3)
      ps == [i \in 1..np |-> LET t == PickW(Sub_(s, 10 + i), ParTypes) IN
                             Par(ParNames[i], t, IF t # "F" /\ Chance(Sub_(s, 20 + i), 25 + 2 * W.set) THEN 1 ELSE 0)]
      rt == PickW(Sub_(s, 2), RetTypes)
      cx == [vs |-> [i \in 1..np |-> Var(ps[i].n, ps[i].t, ps[i].m)], ls |-> <<>>, rt |-> rt, fs |-> fs, ld |-> 1, pure |-> FALSE]
  IN Fun(name, ps, rt, GenBlock(Sub_(s, 3), rt, cx, 2, Rnd(Sub_(s, 4), 3)), 0)

\* fallible step of a mutable integer, recursive (so not inlined) on a rare path
StepFun == Fun("fstep", <<Par("p", "I", 1), Par("q", "I", 0)>>, "U",
  Block("U", <<N("if", "U", "", 0, <<N("bin", "B", ">", 0, <<VarE("q", "I"), Int_(-3)>>),
    Block("U", <<N("set", "U", "", 0, <<VarE("p", "I"), N("bin", "I", "+", 0, <<VarE("p", "I"),
                     N("idiv", "I", "", 0, <<Int_(9), N("bin", "I", "+", 0, <<VarE("q", "I"), Int_(2)>>)>>)>>)>>)>>, FALSE),
    Block("U", <<N("call", "U", "fstep", 0, <<VarE("p", "I"), N("bin", "I", "+", 0, <<VarE("q", "I"), Int_(4)>>)>>)>>, FALSE)>>)>>, FALSE), 0)

\* aggregates whose parts a caller cannot know: recursive (so not inlined) on a rare path
MakeFun(t) ==
  LET x == VarE("n", "I")
      x2 == N("bin", "I", "-", 0, <<x, Int_(1)>>)
      pe == N("struct", "P", "P", 0, <<x, x2>>)
      te == N("tuple", "T", "", 0, <<x2, x>>)
      name == "fmk" \o t
  IN Fun(name, <<Par("n", "I", 0)>>, t, Block(t, <<N("if", t, "", 0, <<N("bin", "B", ">", 0, <<x, Int_(6)>>),
       Block(t, <<N("call", t, name, 0, <<N("mod", "I", "", 0, <<x, Int_(5)>>)>>)>>, TRUE),
       Block(t, <<CASE t = "P" -> pe [] t = "T" -> te [] OTHER -> N("struct", "Q", "Q", 0, <<pe, te>>)>>, TRUE)>>)>>, TRUE), 0)
MakeFuns == <<MakeFun("T"), MakeFun("P"), MakeFun("Q")>>

RECURSIVE GenFunsN(_, _, _, _)
GenFunsN(s, i, fs, acc) ==
  IF i > W.nf THEN acc
  ELSE LET f == IF W.d = 0 /\ Chance(Sub_(s, 30 + i), 20) THEN GenRecFun(Sub_(s, i), "f" \o ToString(i), fs)
                ELSE GenFun(Sub_(s, i), "f" \o ToString(i), fs) IN
       GenFunsN(Sub_(s, 60 + i), i + 1, Append(fs, Sig(f.n, f.ps, f.rt, 0)), Append(acc, f))

MainTypes == << <<5, "I">>, <<2, "T">>, <<2, "A">>, <<1, "B">>, <<1, "P">>, <<W.str, "S">>, <<1, "O">>, <<W.nest, "Q">>, <<1, "AT">>,
                <<2 * W.d, "D">>, <<W.d, "DP">> >>
GenProg(seed) ==
  LET s == Sub_(Sub_(<<(seed * 37 + 11) % 30269, ((seed \div 30269) * 101 + seed * 3 + 5) % 30307>>, 1), 2)
      gs == IF W.gen > 0 THEN SubSeq(GenSigs, 1, Len(GenSigs)) ELSE <<>>
      gsel == IF W.gen > 8 THEN gs ELSE SelectSeq(gs, LAMBDA g : Rnd(Sub_(s, 3), 3) = Len(g.n) % 3)
      st == IF W.hot > 0 THEN <<StepFun>> ELSE <<>>
      stg == [i \in 1..Len(st) |-> Sig(st[i].n, st[i].ps, st[i].rt, 0)]
      ch == (IF W.clash > 0 THEN ClashFuns ELSE <<>>) \o (IF W.hot > 0 THEN MakeFuns ELSE <<>>)
      funs == ch \o st \o GenFunsN(Sub_(s, 4), 1, gsel \o stg, <<>>)
      rt == PickW(Sub_(s, 5), MainTypes)
      mps == <<Par("m", "I", 0), Par("n", "I", 0), Par("o", "I", 0)>>
      cx == [vs |-> <<Var("m", "I", 0), Var("n", "I", 0), Var("o", "I", 0)>>, ls |-> <<>>, rt |-> rt,
             fs |-> gsel \o [i \in 1..(Len(funs) - Len(ch)) |-> LET f == funs[i + Len(ch)] IN Sig(f.n, f.ps, f.rt, 0)], ld |-> 1, pure |-> FALSE]
  IN [funs |-> (IF W.gen > 0 THEN GenFuns ELSE <<>>) \o funs,
      main |-> Fun("main", mps, rt, GenBlock(Sub_(s, 6), rt, cx, W.depth, W.stmts), 0)]

=============================================================================
