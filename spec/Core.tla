-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* Small-step abstract machine of the ferlium core language.               *)
(*                                                                         *)
(* A state is a control (what is being evaluated or returned), a           *)
(* continuation stack, an environment (innermost binding last), a store    *)
(* (stack of locations), the log of host-visible events, the set of live   *)
(* tracked instances and the next instance identity.                       *)
(* Syntax trees, values and continuation frames are uniform records.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  prog,   \* the program: [funs |-> sequence of functions, main |-> block, ...]
  ctl,    \* control
  kont,   \* continuation stack: linked list of frames [f |-> frame, r |-> rest]
  env,    \* sequence of bindings [n |-> name, a |-> location, p |-> path, m |-> mutable, o |-> owned]
  sto,    \* sequence of values
  log,    \* sequence of host events (strings)
  live,   \* identities of tracked instances created and not yet dropped
  nid,    \* next identity
  pc      \* number of steps taken

mvars == <<prog, ctl, kont, env, sto, log, live, nid, pc>>

-----------------------------------------------------------------------------
\* Syntax: k kind, t type, s name/operator, n number, c children
N(k, t, s, n, c) == [k |-> k, t |-> t, s |-> s, n |-> n, c |-> c]
NoN == N("none", "", "", 0, <<>>)

\* types whose values hold tracked (observable clone/drop) instances
TrTypes == {"D", "DP", "DA", "DO", "DV"}
Tr(t) == t \in TrTypes
PlaceKinds == {"var", "tupix", "fld", "idx"}

RECURSIVE IsPlace(_)
IsPlace(e) == IF e.k = "var" THEN TRUE
              ELSE IF e.k \in {"tupix", "fld", "idx"} THEN IsPlace(e.c[1]) ELSE FALSE

\* Values: k kind, n number, s string, c components, x code of a closure
Val(k, n, s, c) == [k |-> k, n |-> n, s |-> s, c |-> c, x |-> NoN]
VI(n) == Val("i", n, "", <<>>)
VB(b) == Val("b", IF b THEN 1 ELSE 0, "", <<>>)
VU == Val("u", 0, "", <<>>)
VS(s) == Val("s", 0, s, <<>>)
VT(c) == Val("t", 0, "", c)
VA(c) == Val("a", 0, "", c)
VC(s, c) == Val("c", 0, s, c)
VD(id, l) == Val("d", id, "", <<VI(l)>>)
Uninit == Val("x", 0, "", <<>>)

Big == 100000000
OkInt(n) == n < Big /\ n > -Big

RECURSIVE GetP(_, _)
GetP(v, p) == IF p = <<>> THEN v ELSE GetP(v.c[Head(p)], Tail(p))
RECURSIVE PutP(_, _, _)
PutP(v, p, x) == IF p = <<>> THEN x
                 ELSE [v EXCEPT !.c[Head(p)] = PutP(@, Tail(p), x)]

\* identities held by a value, in drop order (an array releases its last element first)
RECURSIVE Ids(_)
RECURSIVE IdsSeq(_)
IdsSeq(c) == IF c = <<>> THEN <<>> ELSE Ids(Head(c)) \o IdsSeq(Tail(c))
Ids(v) == IF v.k = "d" THEN << <<v.n, v.c[1].n>> >>
          ELSE IF v.c = <<>> THEN <<>>
          ELSE IF v.k = "a" THEN IdsSeq([i \in 1..Len(v.c) |-> v.c[Len(v.c) + 1 - i]]) ELSE IdsSeq(v.c)
IdSet(v) == LET q == Ids(v) IN {q[i][1] : i \in 1..Len(q)}

EvD(l, id) == "D" \o ToString(l) \o "." \o ToString(id)
EvDs(q, mark) == [i \in 1..Len(q) |-> mark \o EvD(q[i][2], q[i][1])]

\* clone of a value: [v |-> copy, l |-> events, n |-> next identity]
RECURSIVE CloneV(_, _)
RECURSIVE CloneSeq(_, _, _, _)
CloneSeq(c, acc, l, n) ==
  IF c = <<>> THEN [v |-> acc, l |-> l, n |-> n]
  ELSE LET r == CloneV(Head(c), n) IN CloneSeq(Tail(c), Append(acc, r.v), l \o r.l, r.n)
CloneV(v, n) ==
  IF v.k = "d"
  THEN [v |-> VD(n, v.c[1].n),
        l |-> <<"C" \o ToString(v.c[1].n) \o "." \o ToString(v.n) \o "." \o ToString(n)>>,
        n |-> n + 1]
  ELSE IF v.c = <<>> THEN [v |-> v, l |-> <<>>, n |-> n]
  ELSE LET r == CloneSeq(v.c, <<>>, <<>>, n) IN [v |-> [v EXCEPT !.c = r.v], l |-> r.l, n |-> r.n]

-----------------------------------------------------------------------------
\* Control
EV(e) == [m |-> "ev", e |-> e]
PL(e) == [m |-> "pl", e |-> e]
RV(v) == [m |-> "rv", v |-> v]
RP(a, p) == [m |-> "rp", a |-> a, p |-> p]
AP(e, vs) == [m |-> "ap", e |-> e, vs |-> vs]
JM(j, s, v) == [m |-> "jm", j |-> j, s |-> s, v |-> v]
Fail(kind) == JM("fail", kind, VU)
Done(o, s, v) == [m |-> "end", o |-> o, s |-> s, v |-> v]

Push(f, k) == [f |-> f, r |-> k]
Halt == [f |-> [k |-> "halt"], r |-> <<>>]

Item(w, v, a, p) == [w |-> w, v |-> v, a |-> a, p |-> p]

\* primitive state updates
Go(c, k) == /\ ctl' = c /\ kont' = k /\ pc' = pc + 1
            /\ UNCHANGED <<prog, env, sto, log, live, nid>>
GoLog(c, k, l) == /\ ctl' = c /\ kont' = k /\ pc' = pc + 1 /\ log' = log \o l
                  /\ UNCHANGED <<prog, env, sto, live, nid>>
GoAll(c, k, en, st, l, lv, n) ==
  /\ ctl' = c /\ kont' = k /\ env' = en /\ sto' = st /\ log' = l /\ live' = lv /\ nid' = n
  /\ pc' = pc + 1 /\ UNCHANGED prog

Trunc(st, n) == SubSeq(st, 1, n)

\* Drop the values of a sequence, in the given order; mark distinguishes (in the log) the drops of a partially
\* built aggregate that is abandoned
RECURSIVE CatIds(_)
CatIds(vs) == IF vs = <<>> THEN <<>> ELSE Ids(Head(vs)) \o CatIds(Tail(vs))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
DroppedSet(q) == {q[i][1] : i \in 1..Len(q)}
\* every identity of q is live and appears once
DropOk(q, lv) == /\ DroppedSet(q) \subseteq lv
                 /\ Cardinality(DroppedSet(q)) = Len(q)

\* the live set after dropping q; {-1} marks a drop of something that is not live
LV(q) == IF DropOk(q, live) THEN live \ DroppedSet(q) ELSE {-1}

\* owned bindings of the environment above position n, last declared first
OwnedAbove(en, n) == Rev(SelectSeq(SubSeq(en, n + 1, Len(en)), LAMBDA b : b.o))
ValuesOf(bs, st) == [i \in 1..Len(bs) |-> st[bs[i].a]]

FindVar(en, x) == CHOOSE i \in 1..Len(en) : en[i].n = x /\ \A j \in (i + 1)..Len(en) : en[j].n # x
HasVar(en, x) == \E i \in 1..Len(en) : en[i].n = x
FindFun(fs, x) == fs[CHOOSE i \in 1..Len(fs) : fs[i].n = x]

Bind(x, a, p, m, o) == [n |-> x, a |-> a, p |-> p, m |-> m, o |-> o]

-----------------------------------------------------------------------------
\* Kinds evaluated strictly: all children left to right, then applied
StrictKinds == {"bin", "neg", "not", "tuple", "array", "ctor", "struct", "call", "callf", "log", "tap", "tapb",
                "src", "boom", "mk", "len", "append", "prepend", "popb", "popf", "fstr", "idiv", "rem", "mod",
                "range", "each", "panic", "lbl"}

\* Syntactic overlap of two places: same variable, and no step that tells them apart
RECURSIVE PathOf(_)
PathOf(e) == IF e.k = "var" THEN << <<"v", 0, e.s>> >>
             ELSE IF e.k \in {"tupix", "fld", "idx"}
             THEN Append(PathOf(e.c[1]),
                         IF e.k = "tupix" THEN <<"t", e.n, "">> ELSE IF e.k = "fld" THEN <<"f", 0, e.s>>
                         ELSE IF e.c[2].k = "int" /\ e.c[2].n >= 0 THEN <<"i", e.c[2].n, "">> ELSE <<"?", 0, "">>)
             ELSE << <<"-", 0, "">> >>
Overlap(p, q) == LET n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q) IN
                 p[1] = q[1] /\ p[1][1] = "v" /\ \A i \in 2..n : p[i] = q[i] \/ p[i][1] # q[i][1]

\* may evaluating e write a place overlapping p?
RECURSIVE MayWrite(_, _)
RECURSIVE MayWriteAny(_, _, _)
MayWriteAny(c, p, i) ==
  IF i > Len(c) THEN FALSE
  ELSE MayWrite(c[i], p) \/ (IF c[i].k = "let" /\ c[i].s = p[1][3] THEN FALSE ELSE MayWriteAny(c, p, i + 1))
MayWrite(e, p) ==
  \/ e.k \in {"set", "opset"} /\ Overlap(PathOf(e.c[1]), p)
  \/ e.k \in {"append", "prepend", "popb", "popf"} /\ Overlap(PathOf(e.c[1]), p)
  \/ e.k = "call" /\ LET ps == FindFun(prog.funs, e.s).ps IN
        \E i \in 1..Len(e.c) : ps[i].m = 1 /\ Overlap(PathOf(e.c[i]), p)
  \/ /\ e.k \in {"return", "break"} /\ e.c # <<>> /\ e.c[1].k = "var" /\ e.c[1].s = p[1][3]    \* moved out
     /\ HasVar(env, e.c[1].s) /\ env[FindVar(env, e.c[1].s)].o
  \/ MayWriteAny(e.c, p, 1)

\* an argument passed by reference whose place another argument modifies is copied first
Snapshot(e, i) ==
  LET ps == FindFun(prog.funs, e.s).ps
      p == PathOf(e.c[i])
  IN IsPlace(e.c[i]) /\ \E j \in 1..Len(e.c) :
       \/ j # i /\ ps[j].m = 1 /\ Overlap(PathOf(e.c[j]), p)
       \/ j > i /\ MayWrite(e.c[j], p)

\* how argument i of e is taken: v owned value, p mutable place, b borrowed (place if it is one, else temporary)
ArgMode(e, i) ==
  IF e.k = "call"
  THEN LET q == FindFun(prog.funs, e.s).ps[i] IN
       IF q.m = 1 THEN "p" ELSE IF Tr(q.t) /\ ~Snapshot(e, i) THEN "b" ELSE "v"
  ELSE IF e.k \in {"append", "prepend", "popb", "popf"} /\ i = 1 THEN "p"
  ELSE IF e.k = "callf" /\ Tr(e.c[i].t) THEN "b"
  ELSE IF e.k \in {"len", "lbl"} THEN "b"
  ELSE "v"

\* Known finding F5: a struct field of a value whose type inference has not resolved yet is read late, after later operands ran.
\* Runs in which that could be seen are set aside (the finding has a witness of its own).
RECURSIVE LateField(_)
LateField(e) == /\ e.k \in {"tupix", "fld", "idx"}
                /\ e.k = "fld" \/ LateField(e.c[1])
LateRead(e, i) == /\ e.k \notin {"tuple", "array", "ctor", "struct"}
                  /\ LateField(e.c[i])
                  /\ \E j \in (i + 1)..Len(e.c) : MayWrite(e.c[j], PathOf(e.c[i]))

\* the same finding for arguments: such a place passed mutably is not seen to overlap another argument
LateMut(e) == e.k = "call" /\ LET ps == FindFun(prog.funs, e.s).ps IN
  \E i, j \in 1..Len(e.c) : /\ i # j /\ ps[j].m = 1 /\ IsPlace(e.c[i]) /\ Overlap(PathOf(e.c[j]), PathOf(e.c[i]))
                            /\ LateField(e.c[i]) \/ LateField(e.c[j])

ChildCtl(e, i) ==
  IF LateRead(e, i) \/ LateMut(e) THEN Done("discard", "F5", VU) ELSE
  LET md == ArgMode(e, i) IN
  IF md = "p" THEN PL(e.c[i])
  ELSE IF md = "b" /\ IsPlace(e.c[i]) THEN PL(e.c[i])
  ELSE EV(e.c[i])

OpF(e, i, vs) == [k |-> "op", e |-> e, i |-> i, vs |-> vs]

\* value denoted by an item
ItemV(it) == IF it.w = "v" THEN it.v ELSE GetP(sto[it.a], it.p)

-----------------------------------------------------------------------------
\* Evaluation of expressions
EvLit ==
  /\ ctl.m = "ev" /\ ctl.e.k \in {"int", "bool", "unit", "str", "fnref"}
  /\ LET e == ctl.e IN
     Go(RV(CASE e.k = "int" -> VI(e.n)
             [] e.k = "bool" -> VB(e.n = 1)
             [] e.k = "unit" -> VU
             [] e.k = "str" -> VS(e.s)
             [] OTHER -> Val("f", 0, e.s, <<>>)), kont)

\* a place in value position is read: trivially copied or cloned
EvPlace ==
  /\ ctl.m = "ev" /\ ctl.e.k \in PlaceKinds
  /\ Go(PL(ctl.e), Push([k |-> "read"], kont))

EvStrict ==
  /\ ctl.m = "ev" /\ ctl.e.k \in StrictKinds
  /\ IF ctl.e.c = <<>> THEN Go(AP(ctl.e, <<>>), kont)
     ELSE Go(ChildCtl(ctl.e, 1), Push(OpF(ctl.e, 1, <<>>), kont))

EvIf ==
  /\ ctl.m = "ev" /\ ctl.e.k \in {"if", "and", "or"}
  /\ Go(EV(ctl.e.c[1]), Push([k |-> ctl.e.k, e |-> ctl.e], kont))

BlkF(e, i) == [k |-> "blk", e |-> e, i |-> i, en |-> Len(env), st |-> Len(sto)]

\* tail of a block: a local owned by the block is moved out, not copied
TailMove(e, n) == e.k = "var" /\ LET j == FindVar(env, e.s) IN j > n /\ env[j].o

\* a variable in statement position is not read
StmtCtl(e, i) == IF e.c[i].k = "var" /\ ~(i = Len(e.c) /\ e.n = 1) THEN RV(VU) ELSE EV(e.c[i])

EvBlock ==
  /\ ctl.m = "ev" /\ ctl.e.k = "block"
  /\ IF ctl.e.c = <<>> THEN Go(RV(VU), kont)
     ELSE Go(StmtCtl(ctl.e, 1), Push(BlkF(ctl.e, 1), kont))

EvLet ==
  /\ ctl.m = "ev" /\ ctl.e.k = "let"
  /\ LET e == ctl.e IN
     IF Tr(e.t) /\ e.n = 0 /\ e.c[1].k = "var"
     THEN Go(PL(e.c[1]), Push([k |-> "letp", e |-> e], kont))
     ELSE Go(EV(e.c[1]), Push([k |-> "let", e |-> e], kont))

\* assignment: the target place is evaluated (and bounds-checked) first
EvSet ==
  /\ ctl.m = "ev" /\ ctl.e.k \in {"set", "opset"}
  /\ Go(IF ctl.e.k = "opset" /\ LateRead(ctl.e, 1) THEN Done("discard", "F5", VU) ELSE PL(ctl.e.c[1]), Push([k |-> "setp", e |-> ctl.e], kont))

EvMatch ==
  /\ ctl.m = "ev" /\ ctl.e.k = "match"
  /\ LET e == ctl.e IN
     Go(IF Tr(e.c[1].t) /\ IsPlace(e.c[1]) THEN PL(e.c[1]) ELSE EV(e.c[1]),
        Push([k |-> "match", e |-> e, en |-> Len(env), st |-> Len(sto)], kont))

EvLoop ==
  /\ ctl.m = "ev" /\ ctl.e.k = "loop"
  /\ Go(EV(ctl.e.c[1]), Push([k |-> "loop", e |-> ctl.e, en |-> Len(env), st |-> Len(sto)], kont))

EvFor ==
  /\ ctl.m = "ev" /\ ctl.e.k = "for"
  /\ Go(EV(ctl.e.c[1]), Push([k |-> "for0", e |-> ctl.e, en |-> Len(env), st |-> Len(sto)], kont))

\* number of bindings that survive a break to label s
RECURSIVE BreakDepth(_, _)
BreakDepth(k, s) ==
  IF k.f.k \in {"loop", "for"} /\ (s = "" \/ k.f.e.s = s) THEN k.f.en
  ELSE IF k.f.k \in {"call", "halt"} THEN -1 ELSE BreakDepth(k.r, s)

EvJump ==
  /\ ctl.m = "ev" /\ ctl.e.k \in {"break", "continue", "return"}
  /\ LET e == ctl.e IN
     LET keep == IF e.k = "return" THEN 0 ELSE BreakDepth(kont, e.s) IN
     IF e.c = <<>>
     THEN Go(JM(e.k, e.s, VU), kont)
     ELSE IF TailMove(e.c[1], keep)
     THEN LET j == FindVar(env, e.c[1].s) IN
          GoAll(JM(e.k, e.s, sto[env[j].a]), kont, [env EXCEPT ![j].o = FALSE], sto, log, live, nid)
     ELSE Go(EV(e.c[1]), Push([k |-> "jump", e |-> e], kont))

\* a closure copies its captured variables when it is created
RECURSIVE Uses(_, _)
RECURSIVE UsesAny(_, _)
UsesAny(c, x) == \E i \in 1..Len(c) : Uses(c[i], x)
Uses(e, x) == (e.k \in {"var"} /\ e.s = x) \/ UsesAny(e.c, x)

EvLam ==
  /\ ctl.m = "ev" /\ ctl.e.k = "lam"
  /\ LET e == ctl.e
         cap == SelectSeq([i \in 1..Len(env) |-> [b |-> env[i], i |-> i]],
                          LAMBDA q : FindVar(env, q.b.n) = q.i /\ Uses(e, q.b.n))
         vs == [i \in 1..Len(cap) |-> GetP(sto[cap[i].b.a], cap[i].b.p)]
     IN Go(RV([k |-> "f", n |-> 0, s |-> "", c |-> vs,
               x |-> [e EXCEPT !.c = Append(e.c, N("caps", "", "", 0,
                        [i \in 1..Len(cap) |-> N("cap", "", cap[i].b.n, cap[i].b.m, <<>>)]))]]), kont)

EvGroup == ctl.m = "ev" /\
  (EvLit \/ EvPlace \/ EvStrict \/ EvIf \/ EvBlock \/ EvLet \/ EvSet \/ EvMatch \/ EvLoop \/ EvFor \/ EvJump \/ EvLam)

-----------------------------------------------------------------------------
\* Evaluation of places
PlVar ==
  /\ ctl.m = "pl" /\ ctl.e.k = "var"
  /\ LET b == env[FindVar(env, ctl.e.s)] IN Go(RP(b.a, b.p), kont)

PlProj ==
  /\ ctl.m = "pl" /\ ctl.e.k \in {"tupix", "fld", "idx"}
  /\ Go(IF IsPlace(ctl.e.c[1]) THEN PL(ctl.e.c[1]) ELSE EV(ctl.e.c[1]), Push([k |-> "proj", e |-> ctl.e], kont))

\* the base is a value, not a place: it is given a location
PlTemp ==
  /\ ctl.m = "rv" /\ kont.f.k = "proj"
  /\ GoAll(RP(Len(sto) + 1, <<>>), kont, env, Append(sto, ctl.v), log, live, nid)

FieldNo(s) == IF s \in {"x", "p", "l"} THEN 1 ELSE 2

PlProjected ==
  /\ ctl.m = "rp" /\ kont.f.k = "proj"
  /\ LET e == kont.f.e IN
     CASE e.k = "tupix" -> Go(RP(ctl.a, Append(ctl.p, e.n + 1)), kont.r)
       [] e.k = "fld" -> Go(RP(ctl.a, Append(ctl.p, FieldNo(e.s))), kont.r)
       [] OTHER -> Go(EV(e.c[2]), Push([k |-> "index", a |-> ctl.a, p |-> ctl.p], kont.r))

\* indexing: negative indices count from the end; out of bounds is a failure
PlIndex ==
  /\ ctl.m = "rv" /\ kont.f.k = "index"
  /\ LET f == kont.f
         len == Len(GetP(sto[f.a], f.p).c)
         i == IF ctl.v.n < 0 THEN ctl.v.n + len ELSE ctl.v.n
     IN IF i < 0 \/ i >= len THEN Go(Fail("bounds"), kont.r)
        ELSE Go(RP(f.a, Append(f.p, i + 1)), kont.r)

PlGroup == PlVar \/ PlProj \/ PlTemp \/ PlProjected \/ PlIndex

-----------------------------------------------------------------------------
\* A place arrives
RpRead ==
  /\ ctl.m = "rp" /\ kont.f.k = "read"
  /\ LET r == CloneV(GetP(sto[ctl.a], ctl.p), nid) IN
     IF r.n = nid THEN Go(RV(r.v), kont.r)
     ELSE GoAll(RV(r.v), kont.r, env, sto, log \o r.l, live \cup IdSet(r.v), r.n)

NextArg(e, i, vs, k) ==
  IF i = Len(e.c) THEN [c |-> AP(e, vs), k |-> k]
  ELSE [c |-> ChildCtl(e, i + 1), k |-> Push(OpF(e, i + 1, vs), k)]

RpArg ==
  /\ ctl.m = "rp" /\ kont.f.k = "op"
  /\ LET f == kont.f
         nx == NextArg(f.e, f.i, Append(f.vs, Item("p", VU, ctl.a, ctl.p)), kont.r)
     IN Go(nx.c, nx.k)

\* an immutable binding of an immutable variable is an alias (of a part of one: a copy)
RpLet ==
  /\ ctl.m = "rp" /\ kont.f.k = "letp"
  /\ LET e == kont.f.e
         root == CHOOSE i \in 1..Len(env) : env[i].a = ctl.a
     IN IF \E i \in 1..Len(env) : env[i].a = ctl.a /\ env[i].m = 1
        THEN LET r == CloneV(GetP(sto[ctl.a], ctl.p), nid) IN
             GoAll(RV(VU), kont.r, Append(env, Bind(e.s, Len(sto) + 1, <<>>, 0, TRUE)),
                   Append(sto, r.v), log \o r.l, live \cup IdSet(r.v), r.n)
        ELSE GoAll(RV(VU), kont.r, Append(env, Bind(e.s, ctl.a, ctl.p, 0, FALSE)), sto, log, live, nid)

RpSet ==
  /\ ctl.m = "rp" /\ kont.f.k = "setp"
  /\ Go(EV(kont.f.e.c[2]),
        Push([k |-> "setv", e |-> kont.f.e, a |-> ctl.a, p |-> ctl.p,
              \* a compound assignment reads the old value when the place is evaluated
              v |-> IF kont.f.e.k = "opset" THEN GetP(sto[ctl.a], ctl.p) ELSE VU], kont.r))

-----------------------------------------------------------------------------
\* Matching: the first arm whose pattern fits
PatFits(p, v) ==
  CASE p.s = "_" -> TRUE
    [] p.s = "int" -> v.n = p.n
    [] p.s = "bool" -> v.n = p.n
    [] p.s = "str" -> v.s = p.c[1].s
    [] OTHER -> v.s = p.s
ArmOf(e, v) == IF \E i \in 2..Len(e.c) : PatFits(e.c[i].c[1], v)
               THEN CHOOSE i \in 2..Len(e.c) : PatFits(e.c[i].c[1], v)
                      /\ \A j \in 2..(i - 1) : ~PatFits(e.c[j].c[1], v)
               ELSE 0
RpMatch ==
  /\ ctl.m = "rp" /\ kont.f.k = "match"
  /\ LET f == kont.f
         i == ArmOf(f.e, GetP(sto[ctl.a], ctl.p))
     IN IF i = 0 THEN Go(Fail("match"), kont.r)
        ELSE LET pat == f.e.c[i].c[1] IN
             GoAll(EV(f.e.c[i].c[2]), Push([k |-> "arm", en |-> f.en, st |-> f.st, t |-> 0], kont.r),
                   env \o [j \in 1..Len(pat.c) |-> Bind(pat.c[j].s, ctl.a, Append(ctl.p, j), 0, FALSE)],
                   sto, log, live, nid)
RvMatch ==
  /\ ctl.m = "rv" /\ kont.f.k = "match"
  /\ LET f == kont.f
         i == ArmOf(f.e, ctl.v)
         a == Len(sto) + 1
     IN IF i = 0 THEN Go(Fail("match"), kont.r)
        ELSE LET pat == f.e.c[i].c[1] IN
             GoAll(EV(f.e.c[i].c[2]), Push([k |-> "arm", en |-> f.en, st |-> f.st, t |-> a], kont.r),
                   env \o [j \in 1..Len(pat.c) |-> Bind(pat.c[j].s, a, <<j>>, 0, FALSE)],
                   Append(sto, ctl.v), log, live, nid)
\* the matched temporary is released after the arm
RvArm ==
  /\ ctl.m = "rv" /\ kont.f.k = "arm"
  /\ LET f == kont.f
         q == IF f.t = 0 THEN <<>> ELSE Ids(sto[f.t])
     IN GoAll(ctl, kont.r, SubSeq(env, 1, f.en), Trunc(sto, f.st), log \o EvDs(q, ""), LV(q), nid)

-----------------------------------------------------------------------------
\* A value arrives
RvArg ==
  /\ ctl.m = "rv" /\ kont.f.k = "op"
  /\ LET f == kont.f
         tmp == ArgMode(f.e, f.i) \in {"b", "p"}
         it == IF tmp THEN Item("t", VU, Len(sto) + 1, <<>>) ELSE Item("v", ctl.v, 0, <<>>)
         nx == NextArg(f.e, f.i, Append(f.vs, it), kont.r)
     IN IF tmp THEN GoAll(nx.c, nx.k, env, Append(sto, ctl.v), log, live, nid)
        ELSE Go(nx.c, nx.k)

RvIf ==
  /\ ctl.m = "rv" /\ kont.f.k = "if"
  /\ LET e == kont.f.e IN
     IF ctl.v.n = 1 THEN Go(EV(e.c[2]), kont.r)
     ELSE IF Len(e.c) = 3 THEN Go(EV(e.c[3]), kont.r) ELSE Go(RV(VU), kont.r)

RvAndOr ==
  /\ ctl.m = "rv" /\ kont.f.k \in {"and", "or"}
  /\ IF ctl.v.n = (IF kont.f.k = "and" THEN 1 ELSE 0) THEN Go(EV(kont.f.e.c[2]), kont.r)
     ELSE Go(ctl, kont.r)

RvLet ==
  /\ ctl.m = "rv" /\ kont.f.k = "let"
  /\ LET e == kont.f.e IN
     GoAll(RV(VU), kont.r, Append(env, Bind(e.s, Len(sto) + 1, <<>>, e.n, Tr(e.t))), Append(sto, ctl.v), log, live, nid)

\* next statement; the value of a discarded statement is released at once
RvBlk ==
  /\ ctl.m = "rv" /\ kont.f.k = "blk"
  /\ LET f == kont.f
         q == IF f.i < Len(f.e.c) \/ f.e.n = 0 THEN Ids(ctl.v) ELSE <<>>
     IN IF f.i < Len(f.e.c)
        THEN LET e == f.e.c[f.i + 1] IN
             IF f.i + 1 = Len(f.e.c) /\ f.e.n = 1 /\ TailMove(e, f.en)
             THEN LET j == FindVar(env, e.s) IN
                  GoAll(RV(sto[env[j].a]), Push([f EXCEPT !.i = @ + 1], kont.r), [env EXCEPT ![j].o = FALSE], sto,
                        log \o EvDs(q, ""), LV(q), nid)
             ELSE GoAll(StmtCtl(f.e, f.i + 1), Push([f EXCEPT !.i = @ + 1], kont.r), env, sto,
                        log \o EvDs(q, ""), LV(q), nid)
        ELSE LET bs == OwnedAbove(env, f.en)
                 q2 == q \o CatIds(ValuesOf(bs, sto))
             IN GoAll(IF f.e.n = 1 THEN ctl ELSE RV(VU), kont.r, SubSeq(env, 1, f.en), Trunc(sto, f.st),
                      log \o EvDs(q2, ""), LV(q2), nid)

BinV(op, x, y) ==
  CASE op = "+" -> VI(x + y) [] op = "-" -> VI(x - y) [] op = "*" -> VI(x * y)
    [] op = "<" -> VB(x < y) [] op = "<=" -> VB(x <= y) [] op = ">" -> VB(x > y) [] op = ">=" -> VB(x >= y)
    [] OTHER -> VU
BinOk(op, x, y) ==
  CASE op \in {"+", "-"} -> OkInt(x) /\ OkInt(y)
    [] op = "*" -> x < 30000 /\ x > -30000 /\ y < 30000 /\ y > -30000
    [] OTHER -> TRUE
\* comparison of equal-shaped values
RECURSIVE EqV(_, _)
EqV(x, y) == /\ x.k = y.k /\ x.s = y.s /\ Len(x.c) = Len(y.c)
             /\ (x.k = "d" \/ x.n = y.n)
             /\ \A i \in 1..Len(x.c) : EqV(x.c[i], y.c[i])

\* the old value is released after the new one is computed
RvSet ==
  /\ ctl.m = "rv" /\ kont.f.k = "setv"
  /\ LET f == kont.f
         old == GetP(sto[f.a], f.p)
         q == Ids(old)
     IN IF f.e.k = "opset"
        THEN IF ~BinOk(f.e.s, f.v.n, ctl.v.n) THEN Go(Done("discard", "range", VU), kont)
             ELSE GoAll(RV(VU), kont.r, env, [sto EXCEPT ![f.a] = PutP(@, f.p, BinV(f.e.s, f.v.n, ctl.v.n))],
                        log, live, nid)
        ELSE GoAll(RV(VU), kont.r, env, [sto EXCEPT ![f.a] = PutP(@, f.p, ctl.v)],
                   log \o EvDs(q, ""), LV(q), nid)

RvJump ==
  /\ ctl.m = "rv" /\ kont.f.k = "jump"
  /\ Go(JM(kont.f.e.k, kont.f.e.s, ctl.v), kont.r)

RvLoop ==
  /\ ctl.m = "rv" /\ kont.f.k = "loop"
  /\ Go(EV(kont.f.e.c[1]), kont)

\* ForStep(f, k): next element, or leave
ForF(e, vs, en, st) == [k |-> "for", e |-> e, vs |-> vs, en |-> en, st |-> st]
ForStep(f, k) ==
  IF f.vs = <<>> THEN GoAll(RV(VU), k, SubSeq(env, 1, f.en), Trunc(sto, f.st), log, live, nid)
  ELSE GoAll(EV(f.e.c[2]), Push([f EXCEPT !.vs = Tail(@)], k),
             Append(SubSeq(env, 1, f.en), Bind(f.e.t, f.st + 1, <<>>, 0, FALSE)),
             Append(Trunc(sto, f.st), Head(f.vs)), log, live, nid)
RvFor0 ==
  /\ ctl.m = "rv" /\ kont.f.k = "for0"
  /\ LET f == kont.f IN ForStep(ForF(f.e, ctl.v.c, f.en, f.st), kont.r)
RvFor ==
  /\ ctl.m = "rv" /\ kont.f.k = "for"
  /\ ForStep(kont.f, kont.r)

\* the callee is done: temporaries of the arguments are released, last first
TempIds(vs, st) == CatIds(Rev([i \in 1..Len(vs) |-> IF vs[i].w = "t" THEN st[vs[i].a]
                                                   ELSE IF vs[i].w = "v" THEN vs[i].v ELSE VU]))
RvCall ==
  /\ ctl.m = "rv" /\ kont.f.k = "call"
  /\ LET f == kont.f
         q == TempIds(f.vs, sto)
     IN GoAll(ctl, kont.r, f.env, Trunc(sto, f.st), log \o EvDs(q, ""), LV(q), nid)

RvHalt ==
  /\ ctl.m = "rv" /\ kont.f.k = "halt"
  /\ Go(Done("ok", "", ctl.v), kont)

RvGroup == \/ RvArg \/ RvIf \/ RvAndOr \/ RvLet \/ RvBlk \/ RvSet \/ RvJump \/ RvLoop \/ RvFor0 \/ RvFor
           \/ RvCall \/ RvHalt \/ RvMatch \/ RvArm
RpGroup == RpRead \/ RpArg \/ RpLet \/ RpSet \/ RpMatch

-----------------------------------------------------------------------------
\* Application of strict operations to their evaluated arguments
AV(i) == ItemV(ctl.vs[i])
Ret(v) == Go(RV(v), kont)

ApBin ==
  /\ ctl.m = "ap" /\ ctl.e.k = "bin"
  /\ LET x == AV(1) y == AV(2) op == ctl.e.s IN
     IF op = "==" THEN Ret(VB(EqV(x, y))) ELSE IF op = "!=" THEN Ret(VB(~EqV(x, y)))
     ELSE IF ~BinOk(op, x.n, y.n) THEN Go(Done("discard", "range", VU), kont)
     ELSE Ret(BinV(op, x.n, y.n))

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
QuotT(x, y) == Sgn(x) * Sgn(y) * (Abs(x) \div Abs(y))     \* truncated
RemT(x, y) == x - y * QuotT(x, y)
RECURSIVE ModE(_, _)
ModE(x, y) == LET r == RemT(x, y) IN IF r < 0 THEN r + Abs(y) ELSE r
ApDiv ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"idiv", "rem", "mod"}
  /\ LET x == AV(1).n y == AV(2).n IN
     IF y = 0 THEN Go(Fail(IF ctl.e.k = "idiv" THEN "div" ELSE "rem"), kont)
     ELSE IF ctl.e.k = "idiv" THEN Ret(VI(QuotT(x, y)))
     ELSE IF ctl.e.k = "rem" THEN Ret(VI(RemT(x, y)))
     ELSE Ret(VI(ModE(x, y)))

ApUn ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"neg", "not"}
  /\ IF ctl.e.k = "neg" THEN Ret(VI(0 - AV(1).n)) ELSE Ret(VB(AV(1).n = 0))

ApBuild ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"tuple", "array", "ctor", "struct"}
  /\ LET vs == [i \in 1..Len(ctl.vs) |-> AV(i)] IN
     Ret(CASE ctl.e.k \in {"tuple", "struct"} -> VT(vs)
           [] ctl.e.k = "array" -> VA(vs)
           [] OTHER -> VC(ctl.e.s, vs))

ApRange ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"range", "each"}
  /\ IF ctl.e.k = "each" THEN Ret(AV(1))
     ELSE LET lo == AV(1).n hi == AV(2).n incl == ctl.e.n = 1
              cnt == Abs(hi - lo) + (IF incl THEN 1 ELSE 0)
          IN IF cnt > 12 THEN Go(Done("discard", "range", VU), kont)
             ELSE Ret(VA([i \in 1..cnt |-> VI(IF lo <= hi THEN lo + i - 1 ELSE lo - i + 1)]))

ApHost ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"log", "tap", "tapb", "src", "boom", "panic"}
  /\ LET x == AV(1) e == ctl.e IN
     CASE e.k = "log" -> GoLog(RV(VU), kont, <<"L" \o ToString(x.n)>>)
       [] e.k = "tap" -> GoLog(RV(x), kont, <<"T" \o ToString(x.n)>>)
       [] e.k = "tapb" -> GoLog(RV(AV(2)), kont, <<"T" \o ToString(x.n)>>)
       [] e.k = "src" -> Go(RV(x), kont)
       [] e.k = "boom" -> GoLog(Fail("boom"), kont, <<"B" \o ToString(x.n)>>)
       [] OTHER -> Go(Fail("panic"), kont)

ApMk ==
  /\ ctl.m = "ap" /\ ctl.e.k = "mk"
  /\ GoAll(RV(VD(nid, AV(1).n)), kont, env, sto,
           log \o <<"N" \o ToString(AV(1).n) \o "." \o ToString(nid)>>, live \cup {nid}, nid + 1)

\* observers of a borrowed argument: a temporary argument is released afterwards
ApLen ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"len", "lbl"}
  /\ LET v == AV(1) q == TempIds(ctl.vs, sto)
     IN GoAll(RV(IF ctl.e.k = "len" THEN VI(Len(v.c)) ELSE v.c[1]), kont, env, sto,
              log \o EvDs(q, ""), LV(q), nid)

ApArr ==
  /\ ctl.m = "ap" /\ ctl.e.k \in {"append", "prepend", "popb", "popf"}
  /\ LET it == ctl.vs[1]
         arr == GetP(sto[it.a], it.p)
         put(c) == [sto EXCEPT ![it.a] = PutP(@, it.p, VA(c))]
         k == ctl.e.k
         n == Len(arr.c)
     IN CASE k = "append" -> GoAll(RV(VU), kont, env, put(Append(arr.c, ctl.vs[2].v)), log, live, nid)
          [] k = "prepend" -> GoAll(RV(VU), kont, env, put(<<ctl.vs[2].v>> \o arr.c), log, live, nid)
          [] n = 0 -> Ret(VC("None", <<>>))
          [] k = "popb" -> GoAll(RV(VC("Some", <<arr.c[n]>>)), kont, env, put(SubSeq(arr.c, 1, n - 1)), log, live, nid)
          [] OTHER -> GoAll(RV(VC("Some", <<arr.c[1]>>)), kont, env, put(Tail(arr.c)), log, live, nid)

Show(v) == CASE v.k = "i" -> ToString(v.n) [] v.k = "b" -> IF v.n = 1 THEN "true" ELSE "false" [] OTHER -> v.s
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Show(Head(q)) \o Cat(Tail(q))
ApFstr ==
  /\ ctl.m = "ap" /\ ctl.e.k = "fstr"
  /\ Ret(VS(Cat([i \in 1..Len(ctl.vs) |-> AV(i)])))

\* entering a function: by-value parameters own a location holding the value, the others denote the caller's place
Enter(ps, vs, base, st, body, fr) ==
  LET n == Len(st)
      en == [i \in 1..Len(ps) |->
               IF vs[i].w = "v" THEN Bind(ps[i].n, n + i, <<>>, 0, FALSE)
               ELSE Bind(ps[i].n, vs[i].a, vs[i].p, ps[i].m, FALSE)]
      vals == [i \in 1..Len(ps) |-> IF vs[i].w = "v" THEN vs[i].v ELSE VU]
  IN GoAll(EV(body), Push(fr, kont), base \o en, st \o vals, log, live, nid)

ApCall ==
  /\ ctl.m = "ap" /\ ctl.e.k = "call"
  /\ LET g == FindFun(prog.funs, ctl.e.s)
         fr == [k |-> "call", env |-> env, st |-> Len(sto), vs |-> ctl.vs, f |-> g.n]
     IN Enter(g.ps, ctl.vs, <<>>, sto, g.b, fr)

\* calling a function value: each call works on its own copy of the captures
ApCallF ==
  /\ ctl.m = "ap" /\ ctl.e.k = "callf"
  /\ LET fv == AV(1)
         vs == Tail(ctl.vs)
         fr == [k |-> "call", env |-> env, st |-> Len(sto), vs |-> vs, f |-> "fn"]
     IN IF fv.s # ""
        THEN LET g == FindFun(prog.funs, fv.s) IN Enter(g.ps, vs, <<>>, sto, g.b, fr)
        ELSE LET lam == fv.x
                 np == Len(lam.c) - 2      \* parameters, body, captures
                 caps == lam.c[Len(lam.c)].c
                 n == Len(sto)
                 base == [i \in 1..Len(caps) |-> Bind(caps[i].s, n + i, <<>>, caps[i].n, FALSE)]
                 ps == [i \in 1..np |-> [n |-> lam.c[i].s, t |-> lam.c[i].t, m |-> 0]]
             IN Enter(ps, vs, base, sto \o fv.c, lam.c[np + 1], fr)

ApGroup == ctl.m = "ap" /\
  (ApBin \/ ApDiv \/ ApUn \/ ApBuild \/ ApRange \/ ApHost \/ ApMk \/ ApLen \/ ApArr \/ ApFstr \/ ApCall \/ ApCallF)

-----------------------------------------------------------------------------
\* Jumps and failures unwind the continuation one frame at a time
JmOp ==    \* pending operands: owned temporaries and the parts of an unfinished aggregate are released
  /\ ctl.m = "jm" /\ kont.f.k = "op"
  /\ LET f == kont.f
         agg == [i \in 1..Len(f.vs) |-> IF f.vs[i].w = "v" THEN f.vs[i].v
                                        ELSE IF f.vs[i].w = "t" THEN sto[f.vs[i].a] ELSE VU]
         q == CatIds(Rev(agg))
     IN GoAll(ctl, kont.r, env, sto, log \o EvDs(q, IF f.e.k \in {"tuple", "array", "ctor", "struct"} THEN "!" ELSE ""),
              LV(q), nid)
JmBlk ==
  /\ ctl.m = "jm" /\ kont.f.k = "blk"
  /\ LET f == kont.f
         q == CatIds(ValuesOf(OwnedAbove(env, f.en), sto))
     IN GoAll(ctl, kont.r, SubSeq(env, 1, f.en), Trunc(sto, f.st), log \o EvDs(q, ""), LV(q), nid)
JmArm ==
  /\ ctl.m = "jm" /\ kont.f.k = "arm"
  /\ LET f == kont.f
         q == IF f.t = 0 THEN <<>> ELSE Ids(sto[f.t])
     IN GoAll(ctl, kont.r, SubSeq(env, 1, f.en), Trunc(sto, f.st), log \o EvDs(q, ""), LV(q), nid)
JmLoop ==
  /\ ctl.m = "jm" /\ kont.f.k \in {"loop", "for"}
  /\ LET f == kont.f
         mine == ctl.j \in {"break", "continue"} /\ (ctl.s = "" \/ ctl.s = f.e.s)
         en == SubSeq(env, 1, f.en)
         st == Trunc(sto, f.st)
     IN IF ~mine THEN GoAll(ctl, kont.r, en, st, log, live, nid)
        ELSE IF ctl.j = "break" THEN GoAll(RV(ctl.v), kont.r, en, st, log, live, nid)
        ELSE IF f.k = "for" THEN ForStep(f, kont.r)
        ELSE GoAll(EV(f.e.c[1]), kont, en, st, log, live, nid)
JmCall ==
  /\ ctl.m = "jm" /\ kont.f.k = "call"
  /\ LET f == kont.f IN
     IF ctl.j = "return" THEN Go(RV(ctl.v), kont)
     ELSE LET q == TempIds(f.vs, sto) IN
          GoAll(ctl, kont.r, f.env, Trunc(sto, f.st), log \o EvDs(q, ""), LV(q), nid)
JmHalt ==
  /\ ctl.m = "jm" /\ kont.f.k = "halt"
  /\ Go(IF ctl.j = "return" THEN Done("ok", "", ctl.v) ELSE Done("fail", ctl.s, VU), kont)
JmOther ==
  /\ ctl.m = "jm" /\ kont.f.k \notin {"op", "blk", "arm", "loop", "for", "call", "halt"}
  /\ Go(ctl, kont.r)
JmGroup == ctl.m = "jm" /\ (JmOp \/ JmBlk \/ JmArm \/ JmLoop \/ JmCall \/ JmHalt \/ JmOther)

Step == \/ EvGroup \/ ApGroup \/ RvGroup \/ RpGroup \/ PlGroup \/ JmGroup

=============================================================================
