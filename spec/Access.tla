-------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* Scoped accessors: what runs before, around and after an access.          *)
(*                                                                          *)
(* A small-step machine with a stack of open accesses.  Reaching a place    *)
(* through a scoped accessor runs its prologue, which makes a new storage   *)
(* cell (the yielded local), and pushes the access on the stack.  What uses *)
(* the place (assignment, compound assignment, call, or the copy of a read) *)
(* closes every access opened since it began, last first, whether it ends   *)
(* with a value, by a jump or by a failure; closing runs the epilogue.      *)
(* The machine runs one function with two struct parameters passed as       *)
(* mutable; statements of it are generated from a seed.                     *)
(*                                                                          *)
(* TLC checks on every step of every program that each prologue that ended  *)
(* well is matched by at most one epilogue, in nested order, by exactly one *)
(* at the end, and that a cell is only written by the access that opened it.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi, Quiet
VARIABLES seed, prog, ctl, kont, cells, open, lg, hist, pc
vars == <<seed, prog, ctl, kont, cells, open, lg, hist, pc>>

-----------------------------------------------------------------------------
\* Values and places.  A struct is <<v, d, ar>>.  Cells 1 and 2 are the parameters s and t.
VI(n) == [n |-> n, c |-> <<>>]
VA(q) == [n |-> 0, c |-> [i \in 1..Len(q) |-> VI(q[i])]]
VSt(v, d, q) == [n |-> 0, c |-> <<VI(v), VI(d), VA(q)>>]
RECURSIVE GetP(_, _), PutP(_, _, _)
GetP(v, p) == IF p = <<>> THEN v ELSE GetP(v.c[Head(p)], Tail(p))
PutP(v, p, x) == IF p = <<>> THEN x ELSE [v EXCEPT !.c[Head(p)] = PutP(@, Tail(p), x)]
Get(cs, a, p) == GetP(cs[a], p)
Put(cs, a, p, x) == [cs EXCEPT ![a] = PutP(@, p, x)]

N(k, s, n, c) == [k |-> k, s |-> s, n |-> n, c |-> c]

-----------------------------------------------------------------------------
\* Accessors.  recv, res: types S (struct), I (int), A (array); sel: what of the receiver is accessed (v, d, ar, self, at);
\* tag: number its events start at; arg: takes an argument; sc: scoped (yields); fl: fails for argument 0, in the prologue (1) or
\* epilogue (2); gd: holds guards (two values dropped on the way out); via: reads and writes through projection p; add: adds the argument to its events
Accs == [
  c1    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 10, arg |-> TRUE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> TRUE],
  p     |-> [recv |-> "S", res |-> "I", sel |-> "d", tag |-> 110, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  ad    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 150, arg |-> FALSE, sc |-> FALSE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  w     |-> [recv |-> "S", res |-> "I", sel |-> "d", tag |-> 155, arg |-> FALSE, sc |-> FALSE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  at    |-> [recv |-> "A", res |-> "I", sel |-> "at", tag |-> 160, arg |-> TRUE, sc |-> FALSE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  row   |-> [recv |-> "A", res |-> "I", sel |-> "at", tag |-> 1110, arg |-> TRUE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  cells |-> [recv |-> "S", res |-> "A", sel |-> "ar", tag |-> 210, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  cell  |-> [recv |-> "I", res |-> "I", sel |-> "self", tag |-> 310, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  fp    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 610, arg |-> TRUE, sc |-> TRUE, fl |-> 1, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  fe    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 710, arg |-> TRUE, sc |-> TRUE, fl |-> 2, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  gd    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 810, arg |-> TRUE, sc |-> TRUE, fl |-> 2, gd |-> TRUE, via |-> FALSE, add |-> FALSE],
  nest  |-> [recv |-> "S", res |-> "I", sel |-> "d", tag |-> 910, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> TRUE, add |-> FALSE],
  whole |-> [recv |-> "S", res |-> "S", sel |-> "self", tag |-> 1010, arg |-> TRUE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  tk    |-> [recv |-> "S", res |-> "I", sel |-> "v", tag |-> 1310, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> FALSE, via |-> FALSE, add |-> FALSE],
  sat   |-> [recv |-> "A", res |-> "A", sel |-> "self", tag |-> 1210, arg |-> FALSE, sc |-> TRUE, fl |-> 0, gd |-> TRUE, via |-> FALSE, add |-> FALSE] ]

L(n) == <<"L", n>>
D(n) == <<"D", n>>
T(n) == <<"T", n>>
\* where the accessor leads from its receiver: a path, or nothing when the index is outside
Sel(a, cs, c, p, k) ==
  CASE Accs[a].sel = "v" -> <<1>>
    [] Accs[a].sel = "d" -> <<2>>
    [] Accs[a].sel = "ar" -> <<3>>
    [] Accs[a].sel = "self" -> <<>>
    [] OTHER -> <<IF k < 0 THEN Len(Get(cs, c, p).c) + k + 1 ELSE k + 1>>
SelOk(a, cs, c, p, k) == Accs[a].sel # "at" \/ LET q == Sel(a, cs, c, p, k)[1] IN q >= 1 /\ q <= Len(Get(cs, c, p).c)

G(k) == IF Accs[k].arg THEN 1 ELSE 0
\* Prologue of access a (mode m 1: mutable) on the receiver at c, p with argument k: events and whether it fails
Extra(a, k) == IF Accs[a].add THEN k ELSE 0
Prologue(a, m, cs, c, p, k) ==
  LET x == Accs[a]
      l1 == (IF x.sc THEN <<L(x.tag + (IF m = 1 THEN 20 ELSE 0) + Extra(a, k))>> ELSE <<L(x.tag)>>)
      l2 == IF x.via THEN <<L(110), L(120)>> ELSE <<>>
      bad == (x.fl = 1 /\ k = 0) \/ ~SelOk(a, cs, c, p, k)
      \* tk reads its receiver's d before and after, and writes it when mutable
      d == Append(p, 2)
  IN IF a = "tk" THEN [l |-> IF m = 1 THEN l1 ELSE l1 \o <<L(Get(cs, c, d).n)>>, ok |-> TRUE, cs |-> IF m = 1 THEN Put(cs, c, d, VI(7)) ELSE cs]
     ELSE [l |-> l1 \o l2, ok |-> ~bad, cs |-> cs]
\* Epilogue: events, the cells after it, whether it ends well
Epilogue(o, cs) ==
  LET x == Accs[o.a] k == o.k
      v == cs[o.y]
      \* the index is looked up again when the epilogue writes back
      q == IF x.sel = "at" THEN SubSeq(o.p, 1, Len(o.p) - 1) ELSE o.p
      out == x.sel = "at" /\ o.m = 1 /\ ~SelOk(o.a, cs, o.c, q, k)
      to == IF x.sel = "at" /\ o.m = 1 THEN q \o Sel(o.a, cs, o.c, q, k) ELSE o.p
      bad == x.fl = 2 /\ k = 0
      g1 == IF x.gd THEN (IF o.m = 1 THEN <<L(x.tag + 29)>> ELSE <<>>) \o (IF o.m = 1 THEN <<D(k + 1)>> ELSE <<>>) ELSE <<>>
      g2 == IF x.gd THEN <<D(k)>> ELSE <<>>
      done == <<L(x.tag + (IF o.m = 1 THEN 30 ELSE 10) + Extra(o.a, k))>>
      com == IF o.m = 1 THEN (IF x.via THEN <<L(130), L(140)>> ELSE <<>>) \o (IF x.res = "I" THEN <<L(v.n)>> ELSE <<>>) ELSE <<>>
      d0 == IF o.a = "tk" THEN SubSeq(o.p, 1, Len(o.p) - 1) \o <<2>> ELSE <<2>>
      now == IF o.a = "tk" THEN Get(cs, o.c, d0).n ELSE 0
  IN IF o.a = "tk"
     THEN IF o.m = 1 THEN [l |-> <<L(now)>> \o (IF now = 7 THEN <<L(1340)>> ELSE <<>>) \o <<L(v.n)>>, cs |-> Put(Put(cs, o.c, d0, VI(now + 1)), o.c, o.p, v), ok |-> TRUE]
          ELSE [l |-> <<L(now)>> \o (IF now = k THEN <<L(1320)>> ELSE <<>>), cs |-> cs, ok |-> TRUE]
     ELSE IF bad THEN [l |-> g1 \o g2, cs |-> cs, ok |-> FALSE]
     ELSE IF out THEN [l |-> done, cs |-> cs, ok |-> FALSE]
     ELSE [l |-> g1 \o done \o com \o g2, cs |-> IF o.m = 1 THEN Put(cs, o.c, to, v) ELSE cs, ok |-> TRUE]

-----------------------------------------------------------------------------
\* Generation.  Places by type; dp bounds the length of chains.  mut: used as mutable (then no effects in direct index expressions
\* of compound assignments: known finding F2).
Small(s) == PickW(s, << <<3, 1>>, <<4, 2>>, <<1, 0>>, <<1, 3>>, <<1, 7>>, <<1, 4>> >>)
Idx(s) == PickW(s, << <<10, 0>>, <<10, 1>>, <<5, -1>>, <<5, 2>>, <<1, 5>>, <<1, -4>> >>)
\* An argument of an accessor, or of a call before its last, that is a place read without a scoped accessor is copied first (known
\* findings F32, F33: it is not copied when the call or access begins, and what happens meanwhile is seen).
Kept(e) == IF e.k = "read" /\ ~(e.c[1].k = "acc" /\ Accs[e.c[1].s].sc) THEN N("blk", "", 0, <<e>>) ELSE e
KeptA(e) == IF e.k = "read" /\ e.c[1].k = "acc" /\ ~Accs[e.c[1].s].sc THEN N("blk", "", 0, <<e>>) ELSE e
Root(s) == N("root", IF Chance(s, 70) THEN "s" ELSE "t", 0, <<>>)
NoE == N("none", "", 0, <<>>)

RECURSIVE GenPlace(_, _, _, _), GenExp(_, _), GenArg(_, _), GenBlk(_, _, _, _), GenStmt(_, _, _), GenIdx(_, _, _)
Chain(s, a, dp, pure) ==
  N("acc", a, 0, <<GenPlace(Sub(s, 1), Accs[a].recv, dp - 1, pure),
                   IF ~Accs[a].arg THEN NoE ELSE Kept(IF Accs[a].sel = "at" THEN GenIdx(Sub(s, 2), dp, FALSE) ELSE GenArg(Sub(s, 3), dp))>>)
GenIdx(s, dp, pure) ==
  IF pure \/ Chance(Sub(s, 1), 40) THEN N("lit", "", Idx(Sub(s, 2)), <<>>)
  ELSE IF dp > 0 /\ Chance(Sub(s, 3), 30) THEN GenArg(Sub(s, 4), dp)
  ELSE N("tap", "", Idx(Sub(s, 2)), <<>>)
GenPlace(s, ty, dp, pure) ==
  IF ty = "S" THEN IF dp > 0 /\ Chance(Sub(s, 1), 25) THEN Chain(Sub(s, 2), "whole", dp, pure) ELSE Root(Sub(s, 3))
  ELSE IF ty = "A"
  THEN LET w == PickW(Sub(s, 4), << <<3, "far">>, <<5, "cells">>, <<1, "sat">> >>) IN
       IF w = "far" \/ dp <= 0 THEN N("far", "", 0, <<GenPlace(Sub(s, 5), "S", dp - 1, pure)>>) ELSE Chain(Sub(s, 6), w, dp, pure)
  ELSE LET w == PickW(Sub(s, 7), << <<2, "fv">>, <<1, "fd">>, <<3, "ix">>, <<4, "c1">>, <<4, "p">>, <<1, "ad">>, <<1, "w">>, <<2, "at">>, <<2, "row">>, <<4, "cell">>,
                                   <<1, "fp">>, <<1, "fe">>, <<3, "gd">>, <<2, "nest">>, <<3, "tk">> >>) IN
       IF dp <= 0 \/ w \in {"fv", "fd"} THEN N(IF w = "fd" THEN "fd" ELSE "fv", "", 0, <<GenPlace(Sub(s, 8), "S", dp - 1, pure)>>)
       ELSE IF w = "ix" THEN N("ix", "", 0, <<GenPlace(Sub(s, 9), "A", dp - 1, pure), GenIdx(Sub(s, 10), dp - 1, pure)>>)
       ELSE Chain(Sub(s, 11), w, dp, pure)
NonRead(e) == IF e.k = "read" THEN N("blk", "", 0, <<e>>) ELSE e
\* A second argument b that is read through an accessor comes after a first argument without events of its own, or one that is itself
\* read through an accessor (known finding F30: the accesses of all arguments are entered before the other arguments are evaluated).
Second(a, b) == IF a.k = "lit" \/ (a.k = "read" /\ a.c[1].k = "acc" /\ Accs[a.c[1].s].sc) THEN b ELSE NonRead(b)
\* an argument that is evaluated by itself
GenArg(s, dp) ==
  LET w == PickW(Sub(s, 1), << <<4, "lit">>, <<4, "tap">>, <<2, "read">>, <<1, "add">> >>) IN
  IF w = "lit" THEN N("lit", "", Small(Sub(s, 2)), <<>>)
  ELSE IF w = "tap" \/ dp <= 0 THEN N("tap", "", Small(Sub(s, 2)), <<>>)
  ELSE IF w = "read" THEN N("read", "", 0, <<GenPlace(Sub(s, 3), "I", dp - 1, FALSE)>>)
  ELSE LET a == KeptA(GenArg(Sub(s, 4), dp - 1)) IN N("add", "", 0, <<a, Second(a, GenArg(Sub(s, 5), dp - 1))>>)
GenExp(s, dp) ==
  LET w == PickW(Sub(s, 1), << <<3, "arg">>, <<4, "read">>, <<4, "add">>, <<2, "fn">>, <<2, "div">>, <<3, "blk">> >>) IN
  IF w = "arg" \/ dp <= 0 THEN GenArg(Sub(s, 2), dp)
  ELSE IF w = "read" THEN N("read", "", 0, <<GenPlace(Sub(s, 3), "I", dp, FALSE)>>)
  ELSE IF w = "blk" THEN N("blk", "", 0, GenBlk(Sub(s, 4), dp - 1, 1 + Rnd(Sub(s, 5), 2), FALSE) \o <<GenExp(Sub(s, 6), dp - 1)>>)
  ELSE LET a == KeptA(GenExp(Sub(s, 7), dp - 1)) IN
       N(w, "", 0, <<a, IF w = "div" /\ Chance(Sub(s, 9), 40) THEN N("tap", "", 0, <<>>) ELSE Second(a, GenExp(Sub(s, 8), dp - 1))>>)
GenBlk(s, dp, n, lp) == [i \in 1..n |-> GenStmt(Sub(s, i), dp, lp)]
GenStmt(s, dp, lp) ==
  LET w == PickW(Sub(s, 1), << <<6, "set">>, <<4, "op">>, <<4, "bump">>, <<1, "failm">>, <<4, "two">>, <<4, "obs">>, <<3, "log">>, <<3, "if">>, <<2, "loop">>, <<4, "jump">>,
                              <<1, "gp">>, <<2, "via">>, <<1, "cps">>, <<1, "cpa">>, <<2, "app">> >>)
      PI == GenPlace(Sub(s, 2), "I", 3, FALSE)
  IN CASE w = "set" -> N("set", "", 0, <<PI, GenExp(Sub(s, 3), dp)>>)
       \* through an addressor the old value is read after the right-hand side (known finding F5d)
       [] w = "op" -> LET pl == GenPlace(Sub(s, 2), "I", 3, TRUE) IN
                      N("op", "", 0, <<pl, IF pl.k = "acc" /\ ~Accs[pl.s].sc THEN N("tap", "", Small(Sub(s, 3)), <<>>) ELSE GenExp(Sub(s, 3), dp)>>)
       [] w \in {"bump", "failm"} -> N(w, "", 0, <<PI>>)
       [] w = "two" -> N("two", "", 0, <<PI, NonRead(GenExp(Sub(s, 3), dp))>>)
       [] w \in {"obs", "log"} -> N(w, "", 0, <<GenExp(Sub(s, 3), dp)>>)
       [] w = "if" /\ dp > 0 -> N("if", "", Small(Sub(s, 4)), <<N("read", "", 0, <<PI>>), N("blk", "", 0, GenBlk(Sub(s, 5), dp - 1, 1 + Rnd(Sub(s, 6), 2), lp)),
                                                             N("blk", "", 0, GenBlk(Sub(s, 7), dp - 1, 1, lp))>>)
       [] w = "loop" /\ dp > 0 -> N("loop", "", 2, GenBlk(Sub(s, 8), dp - 1, 1 + Rnd(Sub(s, 9), 3), TRUE))
       [] w = "jump" -> LET j == PickW(Sub(s, 10), << <<1, "ret">>, <<2, "brk">>, <<2, "cont">> >>)
                            jj == IF j = "ret" \/ ~lp THEN N("ret", "", 0, <<GenExp(Sub(s, 11), 1)>>) ELSE N(j, "", 0, <<>>)
                        \* a jump happens under a condition, sometimes from within a right-hand side
                        IN N("if", "", Small(Sub(s, 4)), <<N("read", "", 0, <<GenPlace(Sub(s, 2), "I", 2, FALSE)>>),
                             N("blk", "", 0, IF Chance(Sub(s, 12), 60)
                                             THEN <<N(PickW(Sub(s, 13), << <<1, "set">>, <<1, "op">>, <<1, "two">> >>), "", 0,
                                                      <<GenPlace(Sub(s, 14), "I", 3, TRUE), N("jblk", "", 0, GenBlk(Sub(s, 15), 0, Rnd(Sub(s, 16), 2), FALSE) \o <<jj>>)>>)>>
                                             ELSE <<jj>>), N("blk", "", 0, <<>>)>>)
       [] w = "gp" -> N("gp", "", Small(Sub(s, 4)), <<Root(Sub(s, 5))>>)
       [] w = "via" -> N("via", PickW(Sub(s, 6), << <<1, "c1">>, <<1, "gd">>, <<1, "fp">>, <<1, "fe">> >>), Small(Sub(s, 4)), <<Root(Sub(s, 5)), N("tap", "", Small(Sub(s, 7)), <<>>)>>)
       [] w = "cps" -> N("cp", "S", 0, <<GenPlace(Sub(s, 2), "S", 2, FALSE), N("read", "", 0, <<GenPlace(Sub(s, 3), "S", 2, FALSE)>>)>>)
       [] w = "cpa" -> N("cp", "A", 0, <<GenPlace(Sub(s, 2), "A", 2, FALSE), N("read", "", 0, <<GenPlace(Sub(s, 3), "A", 2, FALSE)>>)>>)
       [] w = "app" -> N("app", "", 0, <<GenPlace(Sub(s, 2), "A", 3, FALSE), NonRead(GenExp(Sub(s, 3), dp))>>)
       [] OTHER -> N("bump", "", 0, <<PI>>)
GenProg(n) == LET s == Seed(n) IN
  [body |-> GenBlk(Sub(s, 1), 2, 2 + Rnd(Sub(s, 2), 3), FALSE), last |-> GenExp(Sub(s, 3), 2)]

-----------------------------------------------------------------------------
\* The machine
EV(e) == [m |-> "ev", e |-> e]
PL(e, w) == [m |-> "pl", e |-> e, w |-> w]
RV(v) == [m |-> "rv", v |-> v]
RP(a, p) == [m |-> "rp", a |-> a, p |-> p]
JM(j, v) == [m |-> "jm", j |-> j, v |-> v]
EndC(o, v) == [m |-> "end", o |-> o, v |-> v]
Push(f, k) == [f |-> f, r |-> k]
Halt == [f |-> [k |-> "halt"], r |-> <<>>]
Unit == VI(0)

Init == /\ seed \in SeedLo..SeedHi /\ prog = GenProg(seed)
        /\ ctl = EV(N("blk", "", 0, prog.body \o <<prog.last>>)) /\ kont = Halt
        /\ cells = << VSt(3, 5, <<1, 2, 3>>), VSt(2, 4, <<4, 0, 1>>) >> /\ open = <<>> /\ lg = <<>> /\ hist = <<>> /\ pc = 0
Same == UNCHANGED <<seed, prog>>
Go(c, k) == ctl' = c /\ kont' = k /\ pc' = pc + 1 /\ UNCHANGED <<cells, open, lg, hist>> /\ Same
GoL(c, k, l) == ctl' = c /\ kont' = k /\ pc' = pc + 1 /\ lg' = lg \o l /\ UNCHANGED <<cells, open, hist>> /\ Same
GoC(c, k, cs, l) == ctl' = c /\ kont' = k /\ pc' = pc + 1 /\ cells' = cs /\ lg' = lg \o l /\ UNCHANGED <<open, hist>> /\ Same

Close(k) == Push([k |-> "close", h |-> Len(open)], k)
IsRead(e) == e.k = "read"
\* evaluates argument e of a call: the access of a place read directly lasts as long as the call
Arg(e, k) == IF IsRead(e) THEN Go(PL(e.c[1], 0), Push([k |-> "copy"], k)) ELSE Go(EV(e), k)
Ev ==
  /\ ctl.m = "ev"
  /\ LET e == ctl.e k == kont IN
     CASE e.k = "lit" -> Go(RV(VI(e.n)), k)
       [] e.k = "none" -> Go(RV(Unit), k)
       [] e.k = "tap" -> GoL(RV(VI(e.n)), k, <<T(e.n)>>)
       [] e.k = "read" -> Go(PL(e.c[1], 0), Push([k |-> "copy"], Close(k)))
       [] e.k \in {"add", "fn", "div"} -> Arg(e.c[1], Push([k |-> "arg2", e |-> e], Close(k)))
       [] e.k = "log" -> Arg(e.c[1], Push([k |-> "log"], Close(k)))
       [] e.k = "obs" -> Go(EV(e.c[1]), Push([k |-> "log"], k))
       [] e.k \in {"blk", "jblk"} -> IF e.c = <<>> THEN Go(RV(Unit), k) ELSE Go(EV(e.c[1]), IF Len(e.c) = 1 THEN k ELSE Push([k |-> "seq", e |-> e, i |-> 2], k))
       [] e.k \in {"set", "op", "two", "app", "cp", "bump", "failm"} -> Go(PL(e.c[1], 1), Push([k |-> "target", e |-> e], Close(k)))
       [] e.k = "if" -> Arg(e.c[1], Push([k |-> "cmp"], Push([k |-> "close", h |-> Len(open)], Push([k |-> "if", e |-> e], k))))
       [] e.k = "loop" -> Go(EV(N("blk", "", 0, e.c)), Push([k |-> "loop", e |-> e, i |-> 1], k))
       [] e.k = "ret" -> Go(EV(e.c[1]), Push([k |-> "ret"], k))
       [] e.k \in {"brk", "cont"} -> Go(JM(e.k, Unit), k)
       \* fn gp(x) { x.p += tap(n) } and fn via(s, a, k) { s->[a](k) += e } ; the argument place is the root
       [] e.k = "gp" -> Go(EV(N("op", "", 0, <<N("acc", "p", 0, <<e.c[1], NoE>>), N("tap", "", e.n, <<>>)>>)), k)
       [] e.k = "via" -> Go(EV(N("op", "", 0, <<N("acc", e.s, 0, <<e.c[1], N("lit", "", e.n, <<>>)>>), e.c[2]>>)), k)
Pl ==
  /\ ctl.m = "pl"
  /\ LET e == ctl.e k == kont IN
     CASE e.k = "root" -> Go(RP(IF e.s = "s" THEN 1 ELSE 2, <<>>), k)
       [] e.k \in {"fv", "fd", "far"} -> Go(PL(e.c[1], ctl.w), Push([k |-> "fld", i |-> IF e.k = "fv" THEN 1 ELSE IF e.k = "fd" THEN 2 ELSE 3], k))
       [] e.k \in {"ix", "acc"} -> Go(PL(e.c[1], ctl.w), Push([k |-> "recv", e |-> e, w |-> ctl.w], k))
Rp ==
  /\ ctl.m = "rp"
  /\ LET f == kont.f k == kont.r IN
     CASE f.k = "fld" -> Go(RP(ctl.a, Append(ctl.p, f.i)), k)
       [] f.k = "recv" -> Go(EV(f.e.c[2]), Push([k |-> "reach", e |-> f.e, w |-> f.w, a |-> ctl.a, p |-> ctl.p], k))
       [] f.k = "copy" -> Go(RV(Get(cells, ctl.a, ctl.p)), k)
       [] f.k = "target" /\ f.e.k \in {"bump", "failm"} ->
            LET v == Get(cells, ctl.a, ctl.p).n IN
            IF f.e.k = "bump" THEN GoC(RV(Unit), k, Put(cells, ctl.a, ctl.p, VI(v + 1)), <<L(500), L(501)>>)
            ELSE GoC(JM("fail", Unit), k, Put(cells, ctl.a, ctl.p, VI(77)), <<L(510)>>)
       [] f.k = "target" -> Go(EV(f.e.c[2]), Push([k |-> "write", e |-> f.e, a |-> ctl.a, p |-> ctl.p, old |-> Get(cells, ctl.a, ctl.p)], k))
\* the last step of reaching a place: an index is checked, an accessor entered
Reach(f, k, n) ==
  IF f.e.k = "ix" THEN
    LET len == Len(Get(cells, f.a, f.p).c) i == IF n < 0 THEN len + n ELSE n IN
    IF i < 0 \/ i >= len THEN Go(JM("fail", Unit), k) ELSE Go(RP(f.a, Append(f.p, i + 1)), k)
  ELSE LET a == f.e.s pr == Prologue(a, f.w, cells, f.a, f.p, n) IN
    IF ~pr.ok THEN GoL(JM("fail", Unit), k, pr.l)
    ELSE LET q == f.p \o Sel(a, cells, f.a, f.p, n) IN
    IF ~Accs[a].sc THEN GoL(RP(f.a, q), k, pr.l)
    ELSE /\ ctl' = RP(Len(cells) + 1, <<>>) /\ kont' = k /\ pc' = pc + 1 /\ lg' = lg \o pr.l
         /\ cells' = Append(pr.cs, Get(pr.cs, f.a, q))
         /\ open' = Append(open, [a |-> a, m |-> f.w, k |-> IF a = "tk" THEN Get(cells, f.a, Append(f.p, 2)).n ELSE n, c |-> f.a, p |-> q, y |-> Len(cells) + 1])
         /\ hist' = Append(hist, <<1, Len(cells) + 1>>) /\ Same
\* closing the last access; v: how the use ended
Shut(c, k) ==
  LET o == open[Len(open)] ep == Epilogue(o, cells) IN
  /\ open' = SubSeq(open, 1, Len(open) - 1) /\ cells' = ep.cs /\ lg' = lg \o ep.l /\ hist' = Append(hist, <<2, o.y>>)
  /\ pc' = pc + 1 /\ Same
  /\ IF ep.ok THEN ctl' = c /\ kont' = k
     \* a failure while cleaning up after a failure ends everything
     ELSE IF c.m = "jm" /\ c.j = "fail" THEN ctl' = EndC("cleanup", Unit) /\ kont' = Halt
     ELSE ctl' = JM("fail", Unit) /\ kont' = k
Rv ==
  /\ ctl.m = "rv"
  /\ LET f == kont.f k == kont.r v == ctl.v IN
     CASE f.k = "halt" -> Go(EndC("ok", v), Halt)
       [] f.k = "close" -> IF Len(open) > f.h THEN Shut(ctl, kont) ELSE Go(ctl, k)
       [] f.k = "reach" -> Reach(f, k, v.n)
       [] f.k = "arg2" -> Arg(f.e.c[2], Push([k |-> "bin", e |-> f.e, v |-> v], k))
       [] f.k = "bin" -> IF f.e.k = "div" THEN (IF v.n = 0 THEN Go(JM("fail", Unit), k)
                                                ELSE Go(RV(VI(LET q == (IF f.v.n < 0 THEN -f.v.n ELSE f.v.n) \div (IF v.n < 0 THEN -v.n ELSE v.n) IN IF (f.v.n < 0) = (v.n < 0) THEN q ELSE -q)), k))
                         ELSE GoL(RV(VI(f.v.n + v.n)), k, IF f.e.k = "fn" THEN <<L(77)>> ELSE <<>>)
       [] f.k = "log" -> GoL(RV(Unit), k, <<L(v.n)>>)
       [] f.k = "seq" -> Go(EV(f.e.c[f.i]), IF f.i = Len(f.e.c) THEN k ELSE Push([f EXCEPT !.i = @ + 1], k))
       [] f.k = "write" ->
            (CASE f.e.k \in {"set", "cp"} -> GoC(RV(Unit), k, Put(cells, f.a, f.p, v), <<>>)
              [] f.e.k = "op" -> GoC(RV(Unit), k, Put(cells, f.a, f.p, VI(f.old.n + v.n)), <<>>)
              [] f.e.k = "two" -> GoC(RV(Unit), k, Put(cells, f.a, f.p, VI(Get(cells, f.a, f.p).n + v.n)), <<L(520)>>)
              [] f.e.k = "app" -> GoC(RV(Unit), k, Put(cells, f.a, f.p, [n |-> 0, c |-> Append(Get(cells, f.a, f.p).c, v)]), <<>>))
       [] f.k = "cmp" -> Go(RV(v), k)
       [] f.k = "if" -> Go(EV(f.e.c[IF v.n > f.e.n THEN 2 ELSE 3]), k)
       [] f.k = "loop" -> IF f.i < f.e.n THEN Go(EV(N("blk", "", 0, f.e.c)), Push([f EXCEPT !.i = @ + 1], k)) ELSE Go(RV(Unit), k)
       [] f.k = "ret" -> Go(JM("ret", v), k)
Jm ==
  /\ ctl.m = "jm"
  /\ LET f == kont.f k == kont.r IN
     CASE f.k = "halt" -> Go(EndC(IF ctl.j = "ret" THEN "ok" ELSE "fail", ctl.v), Halt)
       [] f.k = "close" -> IF Len(open) > f.h THEN Shut(ctl, kont) ELSE Go(ctl, k)
       [] f.k = "loop" /\ ctl.j = "brk" -> Go(RV(Unit), k)
       [] f.k = "loop" /\ ctl.j = "cont" -> Go(RV(Unit), kont)
       [] OTHER -> Go(ctl, k)
Report == /\ ctl.m = "end" /\ ctl' = [m |-> "done", o |-> ctl.o]
          /\ PrintT(ToJson([seed |-> seed, p |-> prog, o |-> ctl.o, v |-> ctl.v.n, lg |-> lg, st |-> cells[1], tt |-> cells[2], n |-> Len(hist)]))
          /\ UNCHANGED <<seed, prog, kont, cells, open, lg, hist, pc>>
Next == Ev \/ Pl \/ Rp \/ Rv \/ Jm \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* each access is closed at most once and in nested order: what is open is what the history has opened and not closed
RECURSIVE Bal(_, _)
Bal(h, st) == IF h = <<>> THEN [ok |-> TRUE, st |-> st]
              ELSE IF Head(h)[1] = 1 THEN Bal(Tail(h), Append(st, Head(h)[2]))
              ELSE IF st = <<>> \/ st[Len(st)] # Head(h)[2] THEN [ok |-> FALSE, st |-> st]
              ELSE Bal(Tail(h), SubSeq(st, 1, Len(st) - 1))
Nested == LET b == Bal(hist, <<>>) IN b.ok /\ b.st = [i \in 1..Len(open) |-> open[i].y]
AllClosed == (ctl.m = "end" /\ ctl.o # "cleanup") => open = <<>>
CellsGrow == Len(cells) = 2 + Cardinality({i \in 1..Len(hist) : hist[i][1] = 1})
Ended == pc < 3000
=============================================================================
