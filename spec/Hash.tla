--------------------------------- MODULE Hash ---------------------------------
(* Histories of operations on sets and maps.  A set is the set of labels, and a map the finite      *)
(* function on labels, that its history defines.  Places: two sets, two maps, a set of sets and a   *)
(* map of sets.  Keys are labels 0..KMax-1; the type they stand for (int, string, tuple, array,     *)
(* option, struct, set, float, or a user type with its own equality and clashing hashes) is up to   *)
(* the replay.  Each step appends to `seen` what it shows: the labels q of an iteration, in any order, or a number x. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi, Steps, KMax
VARIABLES seed, k, st, seen, hist
vars == <<seed, k, st, seen, hist>>

Kind(n) == << "int", "str", "pair", "arr", "opt", "clash", "set", "struct", "float", "deep" >>[1 + (n % 10)]
\* how many labels a history uses: few (replacements) or many (growth)
Span(n) == << 4, 12, KMax >>[1 + (n % 3)]
None == -1
NoMap == [x \in {} |-> 0]
Upd(m, f) == [x \in DOMAIN m \cup DOMAIN f |-> IF x \in DOMAIN f THEN f[x] ELSE m[x]]
One(x, v) == [y \in {x} |-> v]
Get(m, x) == IF x \in DOMAIN m THEN m[x] ELSE None
B(c) == IF c THEN 1 ELSE 0
X(n) == << [it |-> FALSE, x |-> n, q |-> <<>>] >>
\* labels in any order (sorted here)
RECURSIVE Up(_)
Up(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Up(S \ {m})
Q(S) == << [it |-> TRUE, x |-> Cardinality(S), q |-> Up(S)] >>
Pairs(m) == {x * 100 + m[x] : x \in DOMAIN m}
Run(a, b) == {x \in 0..(KMax - 1) : a <= x /\ x < b}
Inc(x) == (x + 1) % KMax

Op(o, i, j, x, y, n) == [o |-> o, i |-> i, j |-> j, x |-> x, y |-> y, n |-> n]
Choose(s, n) ==
  Op(PickW(Sub(s, 1), << <<14, "ins">>, <<8, "has">>, <<2, "len">>, <<4, "copy">>, <<5, "eq">>, <<1, "clr">>, <<4, "iter">>, <<4, "fill">>, <<3, "union">>, <<2, "step">>, <<2, "lit">>,
            <<3, "collect">>, <<3, "byref">>, <<2, "byval">>, <<3, "cap">>, <<3, "same">>,
            <<14, "put">>, <<8, "get">>, <<3, "mhas">>, <<3, "mkv">>, <<2, "mlen">>, <<4, "mcopy">>, <<4, "meq">>, <<1, "mclr">>, <<4, "miter">>, <<4, "mfill">>, <<3, "merge">>, <<2, "mlit">>, <<3, "mcollect">>,
            <<3, "mbyref">>, <<3, "msame">>, <<2, "keys">>, <<2, "inv">>,
            <<5, "zins">>, <<5, "zhas">>, <<2, "zlen">>, <<4, "wput">>, <<4, "wget">>, <<2, "hash">> >>),
     1 + Rnd(Sub(s, 2), 2), 1 + Rnd(Sub(s, 3), 2), Rnd(Sub(s, 4), Span(n)), Rnd(Sub(s, 5), Span(n)), Rnd(Sub(s, 6), 20))

\* st: s (two sets), m (two maps), z (a set of sets), w (a map from sets to numbers)
R(t, see) == [st |-> t, seen |-> see]
Apply(op, t) ==
  LET i == op.i j == op.j x == op.x n == op.n S == t.s[i] T == t.s[j] M == t.m[i] N == t.m[j] IN
  CASE op.o = "ins" -> R([t EXCEPT !.s[i] = S \cup {x}], X(B(x \notin S)))
    [] op.o = "has" -> R(t, X(B(x \in S)))
    [] op.o = "len" -> R(t, X(Cardinality(S)))
    [] op.o = "copy" -> R([t EXCEPT !.s[i] = T], <<>>)
    [] op.o = "eq" -> R(t, X(B(S = T)))
    [] op.o = "clr" -> R([t EXCEPT !.s[i] = {}], <<>>)
    [] op.o = "iter" -> R(t, Q(S))
    [] op.o = "fill" -> R([t EXCEPT !.s[i] = S \cup Run(x, x + n)], X(Cardinality(Run(x, x + n) \ S)))
    [] op.o = "union" -> R([t EXCEPT !.s[i] = S \cup T], <<>>)
    \* the elements are those of the set as it was
    [] op.o = "step" -> R([t EXCEPT !.s[i] = S \cup {Inc(e) : e \in S}], X(Cardinality({e \in S : Inc(e) \notin S})))
    [] op.o = "lit" -> R([t EXCEPT !.s[i] = {x, op.y}], X(Cardinality({x, op.y})))
    [] op.o = "collect" -> R([t EXCEPT !.s[i] = Run(x, x + n) \cup {op.y}], <<>>)
    [] op.o = "byref" -> R([t EXCEPT !.s[i] = S \cup {x, op.y}], X(Cardinality({x, op.y} \ S)))
    [] op.o = "byval" -> R(t, X(Cardinality(S \cup {x})))
    \* a closure keeps the set as it was
    [] op.o = "cap" -> R([t EXCEPT !.s[i] = S \cup {x}], X(B(x \in S)))
    \* the same set, built in another order
    [] op.o = "same" -> R(t, X(1))
    [] op.o = "put" -> R([t EXCEPT !.m[i] = Upd(M, One(x, n))], X(Get(M, x)))
    [] op.o = "get" -> R(t, X(Get(M, x)))
    [] op.o = "mhas" -> R(t, X(B(x \in DOMAIN M)))
    [] op.o = "mkv" -> R(t, X(B(Get(M, x) = n)))
    [] op.o = "mlen" -> R(t, X(Cardinality(DOMAIN M)))
    [] op.o = "mcopy" -> R([t EXCEPT !.m[i] = N], <<>>)
    [] op.o = "meq" -> R(t, X(B(M = N)))
    [] op.o = "mclr" -> R([t EXCEPT !.m[i] = NoMap], <<>>)
    [] op.o = "miter" -> R(t, Q(Pairs(M)))
    [] op.o = "mfill" -> R([t EXCEPT !.m[i] = Upd(M, [e \in Run(x, x + n) |-> (e + op.y) % 20])], X(Cardinality(Run(x, x + n) \cap DOMAIN M)))
    [] op.o = "merge" -> R([t EXCEPT !.m[i] = Upd(M, N)], <<>>)
    [] op.o = "mlit" -> R([t EXCEPT !.m[i] = Upd(One(x, n), One(op.y, 3))], <<>>)
    [] op.o = "mcollect" -> R([t EXCEPT !.m[i] = Upd([e \in Run(x, x + n) |-> 1], One(op.y, n))], <<>>)
    [] op.o = "mbyref" -> R([t EXCEPT !.m[i] = Upd(M, One(x, n))], X(Get(M, x)) \o X(n))
    [] op.o = "msame" -> R(t, X(1))
    [] op.o = "keys" -> R([t EXCEPT !.s[j] = DOMAIN M], <<>>)
    [] op.o = "inv" -> R([t EXCEPT !.m[j] = [e \in S |-> n]], <<>>)
    [] op.o = "zins" -> R([t EXCEPT !.z = @ \cup {S}], X(B(S \notin t.z)))
    [] op.o = "zhas" -> R(t, X(B(S \in t.z)))
    [] op.o = "zlen" -> R(t, X(Cardinality(t.z)))
    [] op.o = "wput" -> R([t EXCEPT !.w = Upd(@, One(S, n))], X(Get(t.w, S)))
    [] op.o = "wget" -> R(t, X(Get(t.w, S)))
    \* equal sets have equal hashes
    [] op.o = "hash" -> R(t, X(B(S # T)))

Init == seed \in SeedLo..SeedHi /\ k = 0 /\ st = [s |-> << {}, {} >>, m |-> << NoMap, NoMap >>, z |-> {}, w |-> NoMap] /\ seen = <<>> /\ hist = <<>>
Step == /\ k < Steps
        /\ LET op == Choose(Sub(Seed(seed), k + 20), seed) r == Apply(op, st) IN
           \* the hash of different sets is left open
           IF op.o = "hash" /\ st.s[op.i] # st.s[op.j] THEN UNCHANGED <<st, seen, hist>>
           ELSE st' = r.st /\ seen' = seen \o r.seen /\ hist' = Append(hist, op)
        /\ k' = k + 1 /\ UNCHANGED seed
\* at the end everything is shown
Emit == /\ k = Steps
        /\ PrintT(ToJson([seed |-> seed, kind |-> Kind(seed), hist |-> hist,
             seen |-> seen \o Q(st.s[1]) \o Q(st.s[2]) \o Q(Pairs(st.m[1])) \o Q(Pairs(st.m[2])) \o X(Cardinality(st.z)) \o X(Cardinality(DOMAIN st.w))]))
        /\ k' = Steps + 1 /\ UNCHANGED <<seed, st, seen, hist>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* Laws of the operations in every reached state
Laws == \A i \in 1..2 : LET S == st.s[i] M == st.m[i] IN
  /\ S \subseteq 0..(KMax - 1) /\ DOMAIN M \subseteq 0..(KMax - 1)
  /\ \A x \in 0..(KMax - 1) :
       LET a == Apply(Op("ins", i, 1, x, 0, 0), st) b == Apply(Op("ins", i, 1, x, 0, 0), a.st) IN
         /\ x \in a.st.s[i] /\ b.st = a.st /\ b.seen[1].x = 0 /\ Cardinality(a.st.s[i]) = Cardinality(S) + a.seen[1].x
  /\ \A x \in DOMAIN M : Apply(Op("put", i, 1, x, 0, 7), st).st.m[i][x] = 7
\* writing one place leaves the others
Apart == [][k' <= Steps /\ Len(hist') > Len(hist) => LET op == hist'[Len(hist')] IN
             \A i \in 1..2 : (i # op.i /\ op.o # "keys" => st'.s[i] = st.s[i]) /\ (i # op.i /\ op.o # "inv" => st'.m[i] = st.m[i])]_vars
=============================================================================
