---------------------------------- MODULE Str ----------------------------------
(* Histories of operations on strings.  A string is a sequence of code points in Unicode normal     *)
(* form C; its characters are its grapheme clusters.  Both are specified here for an alphabet that  *)
(* has a case of each rule: composing marks of two classes (whose order matters), Hangul syllables, *)
(* joined pictographs, flags, line ends, letters whose upper case is longer.                        *)
EXTENDS Integers, Sequences, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi, Steps
VARIABLES seed, k, v, seen, hist, fail
vars == <<seed, k, v, seen, hist, fail>>
MaxLen == 24

Acute == 769  Dot == 803  ZWJ == 8205
Vowel == 4449  Final == 4520  Lead == 4352
Syl == 44032  SylF == 44033
Flags == {127464, 127469}
Picts == {128512, 128105}
Alphabet == << 97, 98, 101, 65, 69, 115, 32, 44, 49, 45, 9, 160, 13, 10, 128512, 128105, ZWJ, 127464, 127469, Lead, Vowel, Final, 223, Acute, Dot, 233, 7865, 44032 >>
\* canonical decompositions of one step, and whether the first is the second's composition
Pairs == { <<225, 97, Acute>>, <<233, 101, Acute>>, <<193, 65, Acute>>, <<201, 69, Acute>>, <<347, 115, Acute>>, <<346, 83, Acute>>,
           <<7841, 97, Dot>>, <<7865, 101, Dot>>, <<7840, 65, Dot>>, <<7864, 69, Dot>>, <<7779, 115, Dot>>, <<7778, 83, Dot>>, <<7685, 98, Dot>>, <<7684, 66, Dot>>,
           <<Syl, Lead, Vowel>>, <<SylF, Syl, Final>> }
Class(c) == CASE c = Acute -> 230 [] c = Dot -> 220 [] OTHER -> 0
Composite(c) == \E t \in Pairs : t[1] = c
RECURSIVE Decompose(_), Flatten(_)
Decompose(c) == IF Composite(c) THEN LET t == CHOOSE t \in Pairs : t[1] = c IN Decompose(t[2]) \o <<t[3]>> ELSE <<c>>
Flatten(q) == IF q = <<>> THEN <<>> ELSE Decompose(Head(q)) \o Flatten(Tail(q))
\* marks after a starter are ordered by class, stably
RECURSIVE Sink(_, _), Order(_)
Sink(q, c) == IF q # <<>> /\ Class(c) # 0 /\ Class(q[Len(q)]) > Class(c) THEN Append(Sink(SubSeq(q, 1, Len(q) - 1), c), q[Len(q)]) ELSE Append(q, c)
Order(q) == IF q = <<>> THEN <<>> ELSE Sink(Order(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
\* a code point joins the last starter unless one between them has its class or a higher one (or is a starter)
RECURSIVE Compose(_, _, _)
Compose(out, st, q) ==
  IF q = <<>> THEN out ELSE
  LET c == Head(q)
      open == st > 0 /\ (st = Len(out) \/ (Class(out[Len(out)]) # 0 /\ Class(out[Len(out)]) < Class(c)))
      fit == IF open THEN {t \in Pairs : t[2] = out[st] /\ t[3] = c} ELSE {}
  IN IF fit # {} THEN Compose([out EXCEPT ![st] = (CHOOSE t \in fit : TRUE)[1]], st, Tail(q))
     ELSE Compose(Append(out, c), IF Class(c) = 0 THEN Len(out) + 1 ELSE st, Tail(q))
NFC(q) == Compose(<<>>, 0, Order(Flatten(q)))

\* Grapheme clusters: no break between x and y (what stands before matters for pictographs and flags)
Mark(c) == c \in {Acute, Dot, ZWJ}
Hl(c) == c = Lead  Hv(c) == c = Vowel  Ht(c) == c = Final
RECURSIVE PictBefore(_), FlagsBefore(_)
PictBefore(q) == q # <<>> /\ (q[Len(q)] \in Picts \/ (q[Len(q)] \in {Acute, Dot, ZWJ} /\ PictBefore(SubSeq(q, 1, Len(q) - 1))))
FlagsBefore(q) == IF q = <<>> \/ q[Len(q)] \notin Flags THEN 0 ELSE 1 + FlagsBefore(SubSeq(q, 1, Len(q) - 1))
Joined(q, y) == LET x == q[Len(q)] IN
  \/ x = 13 /\ y = 10
  \/ /\ x \notin {9, 10, 13} /\ y \notin {9, 10, 13}
     /\ \/ Mark(y)
        \/ Hl(x) /\ (Hl(y) \/ Hv(y) \/ y \in {Syl, SylF})
        \/ (x = Syl \/ Hv(x)) /\ (Hv(y) \/ Ht(y))
        \/ (x = SylF \/ Ht(x)) /\ Ht(y)
        \/ x = ZWJ /\ y \in Picts /\ PictBefore(SubSeq(q, 1, Len(q) - 1))
        \/ y \in Flags /\ FlagsBefore(q) % 2 = 1
RECURSIVE Chars(_, _, _)
\* done: the clusters read, from: first of the current, i: next
Chars(q, from, i) == IF from > Len(q) THEN <<>>
                     ELSE IF i <= Len(q) /\ Joined(SubSeq(q, 1, i - 1), q[i]) THEN Chars(q, from, i + 1)
                     ELSE << SubSeq(q, from, i - 1) >> \o Chars(q, i, i + 1)
Graph(q) == Chars(q, 1, 2)
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))

Bytes1(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE ByteLen(_), Less(_, _), Map(_, _), TrimL(_), TrimR(_), Repl(_, _, _), Split(_, _, _, _), RevQ(_), Num(_, _)
ByteLen(q) == IF q = <<>> THEN 0 ELSE Bytes1(Head(q)) + ByteLen(Tail(q))
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Cases == { <<97, 65>>, <<98, 66>>, <<101, 69>>, <<115, 83>>, <<225, 193>>, <<233, 201>>, <<347, 346>>, <<7841, 7840>>, <<7865, 7864>>, <<7779, 7778>>, <<7685, 7684>> }
Up1(c) == IF c = 223 THEN <<83, 83>> ELSE IF \E t \in Cases : t[1] = c THEN << (CHOOSE t \in Cases : t[1] = c)[2] >> ELSE <<c>>
Low1(c) == IF \E t \in Cases : t[2] = c THEN << (CHOOSE t \in Cases : t[2] = c)[1] >> ELSE <<c>>
Map(up, q) == IF q = <<>> THEN <<>> ELSE (IF up THEN Up1(Head(q)) ELSE Low1(Head(q))) \o Map(up, Tail(q))
Blank == {9, 10, 13, 32, 160}
TrimL(q) == IF q = <<>> \/ Head(q) \notin Blank THEN q ELSE TrimL(Tail(q))
TrimR(q) == IF q = <<>> \/ q[Len(q)] \notin Blank THEN q ELSE TrimR(SubSeq(q, 1, Len(q) - 1))
Starts(q, p) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Ends(q, p) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Within(q, p) == \E i \in 0..(Len(q) - Len(p)) : SubSeq(q, i + 1, i + Len(p)) = p
\* replacement of code points, leftmost first; an empty pattern stands between all of them
Repl(q, a, b) == IF a = <<>> THEN (IF q = <<>> THEN b ELSE b \o <<Head(q)>> \o Repl(Tail(q), a, b))
                 ELSE IF Len(q) < Len(a) THEN q
                 ELSE IF Starts(q, a) THEN b \o Repl(SubSeq(q, Len(a) + 1, Len(q)), a, b) ELSE <<Head(q)>> \o Repl(Tail(q), a, b)
\* g: characters left; cur: those of the current part
Split(g, sep, cur, parts) == IF Len(g) < Len(sep) THEN Append(parts, Cat(cur \o g))
                             ELSE IF Cat(SubSeq(g, 1, Len(sep))) = Cat(sep) THEN Split(SubSeq(g, Len(sep) + 1, Len(g)), sep, <<>>, Append(parts, Cat(cur)))
                             ELSE Split(Tail(g), sep, Append(cur, Head(g)), parts)
RevQ(q) == IF q = <<>> THEN <<>> ELSE Append(RevQ(Tail(q)), Head(q))
\* a number: ones, with at most a minus
Digits(q) == q # <<>> /\ \A i \in 1..Len(q) : q[i] = 49
Num(q, a) == IF q = <<>> THEN a ELSE Num(Tail(q), a * 10 + 1)
IsNum(q) == Len(q) < 9 /\ (Digits(q) \/ (q # <<>> /\ Head(q) = 45 /\ Digits(Tail(q))))
ToNum(q) == IF Head(q) = 45 THEN 0 - Num(Tail(q), 0) ELSE Num(q, 0)

-----------------------------------------------------------------------------
RECURSIVE Lit(_, _)
Lit(s, n) == IF n = 0 THEN <<>> ELSE Append(Lit(s, n - 1), PickOf(Sub(s, n), Alphabet))
Op(o, i, j, l, n, m) == [o |-> o, i |-> i, j |-> j, l |-> l, n |-> n, m |-> m, cut |-> FALSE]
Choose(s, q) ==
  LET i == 1 + Rnd(Sub(s, 1), 3) j == 1 + Rnd(Sub(s, 2), 3) a == q[i] b == q[j]
      room(n) == Len(a) + n <= MaxLen
      fits(x, n) == IF room(n) THEN x ELSE 0
      o == PickW(Sub(s, 3), << <<6, "lit">>, << fits(12, Len(b)), "push">>, << fits(12, 4), "pushl">>, << fits(8, Len(b)), "cat">>, << fits(6, Len(b) + 4), "fmt">>, <<7, "slice">>,
             <<4, "repl">>, <<3, "up">>, <<3, "low">>, <<3, "trim">>, <<3, "has">>, <<3, "starts">>, <<3, "ends">>, <<4, "len">>, <<4, "blen">>, <<1, "empty">>, <<4, "eq">>, <<4, "cmp">>,
             <<6, "iter">>, <<6, "split">>, <<3, "copy">>, <<4, "rev">>, << fits(5, Len(b) + 3), "join">>, <<4, "num">>, << fits(4, 4), "byref">>, <<2, "byval">>, << fits(3, 4), "cap">>, << fits(4, 8), "build">>,
             << fits(3, Len(a)), "self">>, <<1, "clr">> >>)
      l == IF o \in {"has", "starts", "ends", "repl", "split"} /\ Chance(Sub(s, 4), 60) /\ a # <<>>
           THEN LET x == 1 + Rnd(Sub(s, 5), Len(a)) IN SubSeq(a, IF o = "starts" THEN 1 ELSE x, IF o = "starts" THEN x ELSE IF o = "ends" THEN Len(a) ELSE x)
           ELSE IF o = "num" THEN << << 49, 49, 49 >>, << 45, 49 >>, << 49, 45 >>, << >>, << 49, 32 >>, << 45 >> >>[1 + Rnd(Sub(s, 6), 6)]
           ELSE Lit(Sub(s, 7), Rnd(Sub(s, 8), 4) + (IF o = "split" THEN 1 ELSE 0))
      g == Len(Graph(b))
  IN Op(o, i, j, l, Rnd(Sub(s, 9), 2 * g + 3) - g - 1, Rnd(Sub(s, 10), 2 * g + 3) - g - 1)

R(q, see, f) == [v |-> q, seen |-> see, fail |-> f]
B(c) == << [n |-> IF c THEN 1 ELSE 0, s |-> <<>>, t |-> FALSE] >>
N(x) == << [n |-> x, s |-> <<>>, t |-> FALSE] >>
S(q) == << [n |-> 0, s |-> q, t |-> TRUE] >>
RECURSIVE Strs(_)
Strs(qs) == IF qs = <<>> THEN <<>> ELSE S(Head(qs)) \o Strs(Tail(qs))
Bound(n, len) == IF n < 0 THEN (IF len + n < 0 THEN 0 ELSE len + n) ELSE IF n > len THEN len ELSE n
Slice(q, n, m) == LET g == Graph(q) IN Cat(SubSeq(g, Bound(n, Len(g)) + 1, Bound(m, Len(g))))
Apply(op, q) ==
  LET i == op.i j == op.j a == q[i] b == q[j] l == NFC(op.l) IN
  CASE op.o = "lit" -> R([q EXCEPT ![i] = l], <<>>, "")
    [] op.o = "push" -> R([q EXCEPT ![i] = NFC(a \o b)], <<>>, "")
    [] op.o = "pushl" -> R([q EXCEPT ![i] = NFC(a \o l)], <<>>, "")
    [] op.o = "cat" -> R([q EXCEPT ![i] = NFC(a \o b)], <<>>, "")
    [] op.o = "fmt" -> R([q EXCEPT ![i] = NFC(NFC(a \o l) \o b)], <<>>, "")
    [] op.o = "slice" -> R([q EXCEPT ![i] = Slice(b, op.n, op.m)], <<>>, "")
    [] op.o = "repl" -> LET r == NFC(Repl(a, l, b)) IN IF Len(r) > MaxLen THEN R([q EXCEPT ![i] = Slice(r, 0, 3)], <<>>, "") ELSE R([q EXCEPT ![i] = r], <<>>, "")
    [] op.o = "up" -> R([q EXCEPT ![i] = NFC(Map(TRUE, b))], <<>>, "")
    [] op.o = "low" -> R([q EXCEPT ![i] = NFC(Map(FALSE, b))], <<>>, "")
    [] op.o = "trim" -> R([q EXCEPT ![i] = TrimR(TrimL(b))], <<>>, "")
    [] op.o = "has" -> R(q, B(Within(a, l)), "")
    [] op.o = "starts" -> R(q, B(Starts(a, l)), "")
    [] op.o = "ends" -> R(q, B(Ends(a, l)), "")
    [] op.o = "len" -> R(q, N(Len(Graph(a))), "")
    [] op.o = "blen" -> R(q, N(ByteLen(a)), "")
    [] op.o = "empty" -> R(q, B(a = <<>>), "")
    [] op.o = "eq" -> R(q, B(a = b) \o B(a = l), "")
    [] op.o = "cmp" -> R(q, N(IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1), "")
    [] op.o = "iter" -> R(q, Strs(Graph(a)), "")
    [] op.o = "split" -> IF l = <<>> THEN R(q, <<>>, "separator must not be empty") ELSE R(q, Strs(Split(Graph(a), Graph(l), <<>>, <<>>)), "")
    [] op.o = "copy" -> R([q EXCEPT ![i] = b], <<>>, "")
    [] op.o = "rev" -> LET RECURSIVE acc(_, _) acc(g, r) == IF g = <<>> THEN r ELSE acc(Tail(g), NFC(Head(g) \o r)) IN R([q EXCEPT ![i] = acc(Graph(b), <<>>)], <<>>, "")
    [] op.o = "join" -> R([q EXCEPT ![i] = NFC(NFC(a \o l) \o b)], <<>>, "")
    [] op.o = "num" -> R([q EXCEPT ![j] = l], N(IF IsNum(l) THEN ToNum(l) ELSE -777), "")
    [] op.o = "byref" -> R([q EXCEPT ![i] = NFC(a \o l)], <<>>, "")
    [] op.o = "byval" -> R(q, S(NFC(a \o l)), "")
    [] op.o = "cap" -> R([q EXCEPT ![i] = NFC(a \o l)], S(a), "")
    [] op.o = "build" -> R([q EXCEPT ![i] = NFC(NFC(NFC(a \o l) \o l) \o l)], <<>>, "")
    [] op.o = "self" -> R([q EXCEPT ![i] = NFC(a \o a)], <<>>, "")
    [] op.o = "clr" -> R([q EXCEPT ![i] = <<>>], <<>>, "")

\* a replacement that grows too long is cut to its first three characters
Long(op, q) == Len(NFC(Repl(q[op.i], NFC(op.l), q[op.j]))) > MaxLen
Init == seed \in SeedLo..SeedHi /\ k = 0 /\ v = << <<>>, <<>>, <<>> >> /\ seen = <<>> /\ hist = <<>> /\ fail = ""
Step == /\ k < Steps /\ fail = ""
        /\ LET op == Choose(Sub(Seed(seed), k + 20), v) r == Apply(op, v) IN
           v' = r.v /\ seen' = seen \o r.seen /\ fail' = r.fail /\ hist' = Append(hist, [op EXCEPT !.cut = op.o = "repl" /\ Long(op, v)])
        /\ k' = k + 1 /\ UNCHANGED seed
Emit == /\ k <= Steps /\ (k = Steps \/ fail # "")
        /\ PrintT(ToJson([seed |-> seed, hist |-> hist, v |-> v, seen |-> seen, fail |-> fail]))
        /\ k' = Steps + 1 /\ UNCHANGED <<seed, v, seen, hist, fail>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every string is normal; characters partition it; slices at every cut give it back
Laws == \A i \in 1..3 : LET q == v[i] g == Graph(q) IN
  /\ NFC(q) = q /\ Cat(g) = q
  /\ \A n \in 0..Len(g) : Slice(q, 0, n) \o Slice(q, n, Len(g)) = q
  /\ LET b == v[1] c == v[1 + (k % 3)] IN NFC(NFC(q \o b) \o c) = NFC(q \o NFC(b \o c))
=============================================================================
