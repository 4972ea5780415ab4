-------------------------------- MODULE Infer --------------------------------
(***************************************************************************)
(* Principal types.  Seeded programs of unannotated functions, the types a  *)
(* user may rely on (let-polymorphic functions, monomorphic locals, number  *)
(* and order constraints), and their verdicts: accepted with that signature *)
(* or rejected.  The last function may carry annotations.                   *)
(***************************************************************************)
EXTENDS Rng, Json, TLC, FiniteSets
CONSTANTS SeedLo, SeedHi
VARIABLES seed, i, prog, sigs, neg, ph
vars == <<seed, i, prog, sigs, neg, ph>>

-----------------------------------------------------------------------------
\* Types
V(n) == [k |-> "v", n |-> n]
C(k, a) == [k |-> k, a |-> a]
IntT == C("int", <<>>) FloatT == C("float", <<>>) BoolT == C("bool", <<>>) StrT == C("string", <<>>) UnitT == C("unit", <<>>)
None_ == [k |-> "none"]
Arr(t) == C("arr", <<t>>)
Fn_(as, r) == C("fun", as \o <<r>>)

\* Inference state: substitution, constraints, error
St0 == [s |-> <<>>, cs |-> {}, err |-> ""]
Fresh(st) == [st EXCEPT !.s = Append(@, None_)]
Top(st) == V(Len(st.s))
Fail(st, e) == IF st.err = "" THEN [st EXCEPT !.err = e] ELSE st
RECURSIVE Walk(_, _)
Walk(st, t) == IF t.k = "v" /\ st.s[t.n] # None_ THEN Walk(st, st.s[t.n]) ELSE t
RECURSIVE Occurs(_, _, _), Deep(_, _)
Occurs(st, n, t) == LET u == Walk(st, t) IN IF u.k = "v" THEN u.n = n ELSE \E j \in 1..Len(u.a) : Occurs(st, n, u.a[j])
Deep(st, t) == LET u == Walk(st, t) IN IF u.k = "v" THEN u ELSE [u EXCEPT !.a = [j \in 1..Len(u.a) |-> Deep(st, u.a[j])]]
RECURSIVE Unify(_, _, _), UnifyAll(_, _, _, _)
Unify(st, t1, t2) ==
  IF st.err # "" THEN st ELSE
  LET a == Walk(st, t1) b == Walk(st, t2) IN
  IF a.k = "v" /\ b.k = "v" /\ a.n = b.n THEN st
  ELSE IF a.k = "v" THEN IF Occurs(st, a.n, b) THEN Fail(st, "infinite") ELSE [st EXCEPT !.s[a.n] = b]
  ELSE IF b.k = "v" THEN IF Occurs(st, b.n, a) THEN Fail(st, "infinite") ELSE [st EXCEPT !.s[b.n] = a]
  ELSE IF a.k # b.k \/ Len(a.a) # Len(b.a) THEN Fail(st, "mismatch")
  ELSE UnifyAll(st, a.a, b.a, 1)
UnifyAll(st, as, bs, j) == IF j > Len(as) THEN st ELSE UnifyAll(Unify(st, as[j], bs[j]), as, bs, j + 1)
Need(st, c, t) == [st EXCEPT !.cs = @ \cup {[c |-> c, t |-> t, r |-> UnitT, j |-> 0]}]

-----------------------------------------------------------------------------
\* Expressions
N(k, o, c) == [k |-> k, o |-> o, c |-> c]
Bind(env, x, t) == [y \in DOMAIN env \cup {x} |-> IF y = x THEN t ELSE env[y]]
\* schemes: fun[name] = [n |-> number of quantified variables, a |-> argument types, r |-> result, cs |-> constraints]; variables 1..n
RECURSIVE Inst(_, _)
Inst(t, base) == IF t.k = "v" THEN V(t.n + base) ELSE [t EXCEPT !.a = [j \in 1..Len(t.a) |-> Inst(t.a[j], base)]]
RECURSIVE FreshN(_, _)
FreshN(st, n) == IF n = 0 THEN st ELSE FreshN(Fresh(st), n - 1)
R(t, st) == [t |-> t, st |-> st]
RECURSIVE Inf(_, _, _, _), InfAll(_, _, _, _, _, _)
\* types of a list of expressions: R(tuple, st)
InfAll(es, j, acc, env, fs, st) ==
  IF j > Len(es) THEN R(acc, st) ELSE LET r == Inf(es[j], env, fs, st) IN InfAll(es, j + 1, Append(acc, r.t), env, fs, r.st)
Inf(e, env, fs, st) ==
  IF st.err # "" THEN R(UnitT, st) ELSE
  CASE e.k = "var" -> R(env[e.o], st)
    [] e.k = "int" -> LET s1 == Fresh(st) IN R(Top(s1), Need(s1, "Num", Top(s1)))
    [] e.k = "float" -> R(FloatT, st) [] e.k = "bool" -> R(BoolT, st) [] e.k = "str" -> R(StrT, st)
    [] e.k = "arith" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) s2 == Unify(r.st, r.t[1], r.t[Len(r.t)]) IN R(r.t[1], Need(s2, "Num", r.t[1]))
    [] e.k = "cmp" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) s2 == Unify(r.st, r.t[1], r.t[2]) IN R(BoolT, Need(s2, "Ord", r.t[1]))
    [] e.k = "eq" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(BoolT, Unify(r.st, r.t[1], r.t[2]))
    [] e.k = "logic" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(BoolT, Unify(Unify(r.st, r.t[1], BoolT), r.t[Len(r.t)], BoolT))
    [] e.k = "if" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(r.t[2], Unify(Unify(r.st, r.t[1], BoolT), r.t[2], r.t[3]))
    [] e.k = "tup" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(C("tup", r.t), r.st)
    [] e.k = "arr" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(Arr(r.t[1]), Need(Unify(r.st, r.t[1], r.t[Len(r.t)]), "elem", r.t[1]))
    [] e.k = "idx" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) s1 == Fresh(r.st) IN R(Top(s1), Need(Unify(Unify(s1, r.t[1], Arr(Top(s1))), r.t[2], IntT), "elem", Top(s1)))
    [] e.k = "proj" -> LET r == Inf(e.c[1], env, fs, st) s1 == Fresh(r.st) IN
         R(Top(s1), [s1 EXCEPT !.cs = @ \cup {[c |-> "proj", t |-> r.t, r |-> Top(s1), j |-> e.o]}])
    [] e.k = "show" -> LET r == Inf(e.c[1], env, fs, st) IN R(StrT, r.st)
    [] e.k = "idiv" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) IN R(IntT, Unify(Unify(r.st, r.t[1], IntT), r.t[2], IntT))
    [] e.k = "let" -> LET r == Inf(e.c[1], env, fs, st) IN Inf(e.c[2], Bind(env, e.o, r.t), fs, r.st)
    [] e.k = "lam" -> LET s1 == Fresh(st) a == Top(s1) r == Inf(e.c[1], Bind(env, e.o, a), fs, s1) IN R(Fn_(<<a>>, r.t), r.st)
    [] e.k = "app" -> LET r == InfAll(e.c, 1, <<>>, env, fs, st) s1 == Fresh(r.st) res == Top(s1) IN
         R(res, Unify(s1, r.t[1], Fn_(Tail(r.t), res)))
    [] OTHER -> \* "call": a module function, instantiated
         LET r == InfAll(e.c, 1, <<>>, env, fs, st) f == fs[e.o] base == Len(r.st.s) s1 == FreshN(r.st, f.n)
             tr(t) == IF f.mono THEN t ELSE Inst(t, base)
             s2 == UnifyAll(s1, r.t, [j \in 1..Len(f.a) |-> tr(f.a[j])], 1)
         IN R(tr(f.r), [s2 EXCEPT !.cs = @ \cup {[c EXCEPT !.t = Inst(c.t, base)] : c \in f.cs}])

\* projections whose tuple type is known
RECURSIVE SolveProj(_)
SolveProj(st) ==
  LET ready == {c \in st.cs : c.c = "proj" /\ Walk(st, c.t).k # "v"} IN
  IF st.err # "" \/ ready = {} THEN st
  ELSE LET c == CHOOSE c \in ready : TRUE t == Walk(st, c.t) s1 == [st EXCEPT !.cs = @ \ {c}] IN
       IF t.k # "tup" \/ Len(t.a) <= c.j THEN Fail(s1, "proj") ELSE SolveProj(Unify(s1, c.r, t.a[c.j + 1]))

RECURSIVE FreeIn(_, _), Collect(_, _, _)
FreeIn(st, t) == LET u == Walk(st, t) IN IF u.k = "v" THEN <<u.n>> ELSE Collect(st, u.a, 1)
Collect(st, ts, j) == IF j > Len(ts) THEN <<>> ELSE FreeIn(st, ts[j]) \o Collect(st, ts, j + 1)
RECURSIVE HasFun(_, _)
HasFun(st, t) == LET u == Walk(st, t) IN u.k = "fun" \/ (u.k # "v" /\ \E j \in 1..Len(u.a) : HasFun(st, u.a[j]))
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>> ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN IF \E j \in 1..Len(r) : r[j] = x THEN r ELSE Append(r, x)
IndexOf(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
RECURSIVE Rename(_, _)
Rename(t, q) == IF t.k = "v" THEN V(IndexOf(q, t.n)) ELSE [t EXCEPT !.a = [j \in 1..Len(t.a) |-> Rename(t.a[j], q)]]
NumTypes == {"int", "float"}
OrdTypes == {"int", "float", "string"}

\* verdict of a function: [ok |-> "yes"/"no"/"odd", ...]; "odd": the outcome is left open (ambiguous or structural constraints)
Generalize(args, ret, st0) ==
  LET st == SolveProj(st0)
      bad(e) == [ok |-> e, mono |-> FALSE, why |-> st.err, n |-> 0, a |-> <<>>, r |-> UnitT, cs |-> {}]
  IN IF st.err # "" THEN bad("no")
  ELSE LET q == Dedup(Collect(st, Append(args, ret), 1))
           nums == {Walk(st, c.t) : c \in {c \in st.cs : c.c = "Num"}}
           ords == {Walk(st, c.t) : c \in {c \in st.cs : c.c = "Ord"}}
           \* a number variable that the signature does not mention is an int
           s2 == [st EXCEPT !.s = [j \in 1..Len(st.s) |-> IF st.s[j] = None_ /\ V(j) \in nums /\ ~ \E k \in 1..Len(q) : q[k] = j THEN IntT ELSE st.s[j]]]
           n2 == {Walk(s2, t) : t \in nums} o2 == {Walk(s2, t) : t \in ords}
           ground(t) == Collect(s2, <<t>>, 1) = <<>>
           wrongN == {t \in n2 : t.k # "v" /\ t.k \notin NumTypes} wrongO == {t \in o2 : t.k # "v" /\ t.k \notin OrdTypes}
           unbound == {j \in 1..Len(s2.s) : s2.s[j] = None_ /\ ~ \E k \in 1..Len(q) : q[k] = j}
           \* known finding F9: arrays of functions of not fully known type
           openFunElem == \E c \in s2.cs : c.c = "elem" /\ HasFun(s2, c.t) /\ ~ground(c.t)
       IN IF \E t \in wrongN \cup wrongO : ground(t) THEN [bad("no") EXCEPT !.why = "constraint"]
          ELSE IF openFunElem \/ wrongN \cup wrongO # {} \/ unbound # {} \/ \E c \in s2.cs : c.c = "proj" THEN bad("odd")
          ELSE [ok |-> "yes", mono |-> FALSE, why |-> "", n |-> Len(q), a |-> [j \in 1..Len(args) |-> Rename(Deep(s2, args[j]), q)], r |-> Rename(Deep(s2, ret), q),
                cs |-> {[c |-> "Num", t |-> V(IndexOf(q, t.n)), r |-> UnitT, j |-> 0] : t \in {t \in n2 : t.k = "v"}} \cup
                       {[c |-> "Ord", t |-> V(IndexOf(q, t.n)), r |-> UnitT, j |-> 0] : t \in {t \in o2 : t.k = "v"}}]

-----------------------------------------------------------------------------
\* Generation: each function sees the earlier ones and itself
RECURSIVE GE(_, _, _, _)
\* vs: local names; fs: sequence of <<name, arity>>
GE(s, d, vs, fs) ==
  LET k1(n) == GE(Sub(s, 40 + n), d - 1, vs, fs)
      k0(n) == GE(Sub(s, 40 + n), IF Chance(Sub(s, 60 + n), 55) THEN 0 ELSE d - 1, vs, fs)
      leaf == IF vs # <<>> /\ Chance(Sub(s, 1), 72) THEN N("var", PickOf(Sub(s, 2), vs), <<>>)
              ELSE PickW(Sub(s, 3), << <<10, N("int", "", <<>>)>>, <<3, N("bool", "", <<>>)>>, <<2, N("str", "", <<>>)>>, <<1, N("float", "", <<>>)>> >>)
      how == PickW(Sub(s, 4), << <<8, "arith">>, <<2, "neg">>, <<5, "if">>, <<5, "tup">>, <<3, "arr">>, <<4, "idx">>, <<3, "proj">>, <<6, "let">>, <<5, "lam">>,
                                 <<9, "app">>, <<12, "call">>, <<2, "show">>, <<2, "idiv">>, <<3, "bool">> >>)
      nx == IF Len(vs) < 5 THEN <<"x", "y", "z", "w", "u", "v">>[Len(vs) + 1] ELSE "v"
      bool(n) == PickW(Sub(s, n), << <<4, N("cmp", "", <<k0(1), k0(2)>>)>>, <<4, N("eq", "", <<k0(1), k0(2)>>)>>, <<2, N("logic", "not", <<k0(3)>>)>>, <<1, N("logic", "and", <<k0(1), k0(2)>>)>> >>)
  IN IF d <= 0 THEN leaf
     ELSE CASE how = "arith" -> N("arith", PickOf(Sub(s, 5), <<"+", "-", "*">>), <<k0(1), k0(2)>>)
            [] how = "neg" -> N("arith", "neg", <<k1(1)>>)
            [] how = "if" -> N("if", "", << bool(6), k1(4), k0(5) >>)
            [] how = "tup" -> N("tup", "", <<k0(1), k0(2)>>)
            [] how = "arr" -> N("arr", "", IF Chance(Sub(s, 7), 50) THEN <<k1(1)>> ELSE <<k0(1), k0(2)>>)
            [] how = "idx" -> N("idx", "", <<k0(1), IF Chance(Sub(s, 8), 60) THEN N("int", "", <<>>) ELSE k0(2)>>)
            [] how = "proj" -> N("proj", Rnd(Sub(s, 9), 2), <<k1(1)>>)
            [] how = "let" -> N("let", nx, << k1(1), GE(Sub(s, 42), d - 1, Append(vs, nx), fs) >>)
            [] how = "lam" -> N("lam", nx, << GE(Sub(s, 42), d - 1, Append(vs, nx), fs) >>)
            [] how = "app" -> LET f == IF vs # <<>> /\ Chance(Sub(s, 10), 80) THEN N("var", PickOf(Sub(s, 2), vs), <<>>) ELSE k1(1) IN
                 N("app", "", IF Chance(Sub(s, 11), 20) THEN <<f, k0(2), k0(3)>> ELSE <<f, k0(2)>>)
            [] how = "call" -> IF fs = <<>> THEN leaf ELSE LET f == PickOf(Sub(s, 12), fs) IN N("call", f[1], [j \in 1..f[2] |-> k0(j)])
            [] how = "show" -> N("show", "", <<k1(1)>>)
            [] how = "idiv" -> N("idiv", "", <<k0(1), k0(2)>>)
            [] OTHER -> bool(6)

Names == <<"f1", "f2", "f3", "f4">>
Params(s) == SubSeq(<<"x", "y", "z">>, 1, 1 + Rnd(Sub(s, 70), 3))
\* candidate number k for the j-th function, after the functions fs
Candidate(s0, j, k, fs) ==
  LET s == Sub(Sub(s0, 500 + j), k)
      ps == Params(Sub(s, 10))
      body == GE(Sub(s, 30), 1 + Rnd(Sub(s, 20), 3), ps, fs)
      rec == Chance(Sub(s, 50), 22)
      \* a recursive function: a base case, the recursive call in the other branch
      full == N("if", "", << N("cmp", "", << N("int", "", <<>>), N("int", "", <<>>) >>), body,
                             N("call", Names[j], [q \in 1..Len(ps) |-> GE(Sub(s, 90 + q), Rnd(Sub(s, 95 + q), 2), ps, fs)]) >>)
  IN [name |-> Names[j], ps |-> ps, body |-> IF rec THEN full ELSE body]

RECURSIVE Ann(_, _)
Ann(s, d) == PickW(Sub(s, 1), << <<6, IntT>>, <<3, BoolT>>, <<3, StrT>>, <<IF d > 0 THEN 3 ELSE 0, IF d > 0 THEN Arr(Ann(Sub(s, 2), d - 1)) ELSE IntT>>,
                                 <<IF d > 0 THEN 2 ELSE 0, IF d > 0 THEN C("tup", <<Ann(Sub(s, 3), d - 1), Ann(Sub(s, 4), d - 1)>>) ELSE IntT>>,
                                 <<IF d > 0 THEN 2 ELSE 0, IF d > 0 THEN Fn_(<<Ann(Sub(s, 5), d - 1)>>, Ann(Sub(s, 6), d - 1)) ELSE IntT>> >>)

\* parameters 1..n and the result n+1 are the first variables; ann[j] is an annotation or None_
RECURSIVE Annotate(_, _, _)
Annotate(st, ann, j) == IF j > Len(ann) THEN st ELSE Annotate(IF ann[j] = None_ THEN st ELSE Unify(st, V(j), ann[j]), ann, j + 1)
InferFun(f, fs, ann) ==
  LET n == Len(f.ps)
      st == Annotate(FreshN(St0, n + 1), ann, 1)
      env == [x \in {f.ps[j] : j \in 1..n} |-> V(IndexOf(f.ps, x))]
      self == [n |-> 0, mono |-> TRUE, a |-> [j \in 1..n |-> V(j)], r |-> V(n + 1), cs |-> {}]
      \* inside its body the function itself is monomorphic
      fs2 == [g \in DOMAIN fs \cup {f.name} |-> IF g = f.name THEN self ELSE fs[g]]
      r == Inf(f.body, env, fs2, st)
  IN Generalize([j \in 1..n |-> V(j)], V(n + 1), Unify(r.st, r.t, V(n + 1)))

\* the principal type made an instance: annotations of the last function
NoAnn(f) == [j \in 1..(Len(f.ps) + 1) |-> None_]
RECURSIVE SubstAnn(_, _)
SubstAnn(t, q) == IF t.k = "v" THEN q[t.n] ELSE [t EXCEPT !.a = [j \in 1..Len(t.a) |-> SubstAnn(t.a[j], q)]]
SomeAnn(s, f, sc) ==
  IF sc.ok = "yes" /\ Chance(Sub(s, 201), 60)
  THEN LET nums == {c.t.n : c \in sc.cs}
           q == [j \in 1..sc.n |-> IF j \in nums THEN IntT ELSE Ann(Sub(s, 210 + j), 1)]
           full == [j \in 1..(Len(f.ps) + 1) |-> SubstAnn(Append(sc.a, sc.r)[j], q)]
       IN [j \in 1..(Len(f.ps) + 1) |-> IF Chance(Sub(s, 220 + j), 65) THEN full[j] ELSE None_]
  ELSE [j \in 1..(Len(f.ps) + 1) |-> IF Chance(Sub(s, 230 + j), 50) THEN Ann(Sub(s, 240 + j), 1) ELSE None_]

-----------------------------------------------------------------------------
\* One step per function
Init == seed \in SeedLo..SeedHi /\ i = 1 /\ prog = <<>> /\ sigs = <<>> /\ neg = <<>> /\ ph = "infer"
S0 == Seed(seed)
NFuns == 2 + Rnd(Sub(S0, 1), 3)
Attempts == 8
Env(n) == [g \in {prog[j].name : j \in 1..n} |-> sigs[CHOOSE j \in 1..n : prog[j].name = g]]
Step == /\ ph = "infer" /\ i <= Attempts * NFuns /\ Len(prog) < NFuns
        /\ LET f == Candidate(S0, Len(prog) + 1, i, [q \in 1..Len(prog) |-> <<prog[q].name, Len(prog[q].ps)>>])
               v == InferFun(f, Env(Len(prog)), NoAnn(f)) IN
             /\ prog' = IF v.ok = "yes" THEN Append(prog, f) ELSE prog
             /\ sigs' = IF v.ok = "yes" THEN Append(sigs, v) ELSE sigs
             /\ neg' = IF v.ok = "no" /\ Len(neg) < 3 THEN Append(neg, [at |-> Len(prog), f |-> f, why |-> v.why]) ELSE neg
        /\ i' = i + 1 /\ UNCHANGED <<seed, ph>>
Done == ph = "infer" /\ (i > Attempts * NFuns \/ Len(prog) = NFuns)
Last == prog[Len(prog)]
Anns == IF prog = <<>> THEN <<>>
        ELSE LET one(k) == LET a == SomeAnn(Sub(S0, 300 + k), Last, sigs[Len(prog)]) IN [a |-> a, v |-> InferFun(Last, Env(Len(prog) - 1), a)]
             IN << one(1), one(2), one(3) >>
Emit == /\ Done /\ ph' = "done" /\ UNCHANGED <<seed, i, prog, sigs, neg>>
        /\ PrintT(ToJson([seed |-> seed, prog |-> prog, sigs |-> sigs, neg |-> neg, anns |-> Anns]))
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

\* Annotating with the principal type at an instance gives that instance; and never accepts what inference rejects
RECURSIVE Same(_, _)
Same(a, b) == a.k = b.k /\ IF a.k = "v" THEN a.n = b.n ELSE Len(a.a) = Len(b.a) /\ \A j \in 1..Len(a.a) : Same(a.a[j], b.a[j])
IntFor(sc) == [j \in 1..sc.n |-> IntT]
Principal == Done /\ prog # <<>> =>
  LET sc == sigs[Len(prog)]
      full == [j \in 1..(Len(Last.ps) + 1) |-> SubstAnn(Append(sc.a, sc.r)[j], IntFor(sc))]
      v == InferFun(Last, Env(Len(prog) - 1), full)
  IN v.ok = "yes" /\ v.n = 0 /\ \A j \in 1..Len(sc.a) : Same(v.a[j], full[j])
\* what inference rejects, no annotation makes acceptable
NoRescue == Done => \A k \in 1..Len(neg) :
  LET f == neg[k].f IN InferFun(f, Env(neg[k].at), SomeAnn(Sub(S0, 400 + k), f, [ok |-> "no"])).ok = "no"
=============================================================================
