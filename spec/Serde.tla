-------------------------------- MODULE Serde --------------------------------
(***************************************************************************)
(* Serialization: DataValue, JSON and data text.                            *)
(*                                                                          *)
(* A seeded type and a value of it are encoded: to the data value, and from *)
(* there to the tokens of JSON and of data text.  A step may edit the       *)
(* tokens (drop, double, swap or replace one, cut the end).  The tokens are *)
(* read again by the grammars specified here and decoded at the same or at  *)
(* another type.  TLC checks that what is written is read, and that an      *)
(* unedited text decodes at its own type to the value it was made from.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Rng2, SequencesExt
CONSTANTS SeedLo, SeedHi
VARIABLES seed, case, toks, st
vars == <<seed, case, toks, st>>

-----------------------------------------------------------------------------
(* numbers by their text: 32-bit TLC integers are too small *)
IntT == <<"0", "1", "-1", "42", "9223372036854775807", "-9223372036854775808">>
FloatT == <<"0.5", "-1.25", "2", "0.1", "9223372036854776000", "0.125">>
Big == {"9223372036854775807", "9223372036854776000"}
AsFloat(n) == IF n \in Big THEN "9223372036854776000" ELSE IF n = "-9223372036854775808" THEN "-9223372036854776000" ELSE n
Rounded == ("0.5" :> "1") @@ ("-1.25" :> "-1") @@ ("2" :> "2") @@ ("0.1" :> "0") @@ ("0.125" :> "0")
IsInt(n) == \E i \in 1..Len(IntT) : IntT[i] = n \/ n = "2"
Names == <<"a", "b", "x", "y">>
Chars == <<"a", "b", "x", "quote", "back", "nl", "cr", "tab", "bs", "ff", "c1", "del", "nel", "eacute", "smile", "slash", "brace", "null", "type">>

(* types: <<"int">>..., <<"arr", t>>, <<"tup", nm, ts>>, <<"rec", nm, names, ts>>, <<"set", t>>, <<"map", k, t>>,
   <<"enum", nm, cases>> with a case <<name, form, names, ts>> *)
TInt == <<"int">>
Str == <<"str">>
Option(t) == <<"enum", "Option", << <<"None", "unit", <<>>, <<>> >>, <<"Some", "tup", <<>>, <<t>> >> >> >>
E1 == <<"enum", "E", << <<"A", "unit", <<>>, <<>> >>, <<"B", "tup", <<>>, <<TInt>> >>, <<"C", "rec", <<"x", "y">>, <<TInt, Str>> >>, <<"D", "tup", <<>>, <<TInt, Str>> >>, <<"F", "tup", <<>>, << <<"unit">> >> >>,
        <<"G", "tup", <<>>, << <<"rec", "", <<"x">>, <<TInt>> >> >> >>, <<"H", "tup", <<>>, << <<"arr", <<"float">> >> >> >> >> >>
E2 == <<"enum", "E2", << <<"A", "tup", <<>>, <<TInt>> >>, <<"B", "unit", <<>>, <<>> >>, <<"C", "rec", <<"y", "x">>, <<Str, TInt>> >>, <<"D", "tup", <<>>, <<TInt>> >>, <<"G", "rec", <<"x">>, <<TInt>> >> >> >>
S == <<"rec", "S", <<"b", "a">>, <<TInt, Str>> >>
T == <<"tup", "T", <<TInt, <<"bool">> >> >>
One == <<"tup", "One", <<S>> >>
Leaf(s) == PickW(s, << <<2, <<"unit">> >>, <<2, <<"bool">> >>, <<5, TInt>>, <<4, <<"float">> >>, <<5, Str>> >>)
Key(s) == PickW(s, << <<3, TInt>>, <<4, Str>>, <<1, <<"bool">> >>, <<1, <<"tup", "", <<TInt, Str>> >> >> >>)
FieldsOf(s) == PickOf(s, << <<"a">>, <<"b", "a">>, <<"x", "y">>, <<"y", "a", "x">>, <<"data", "x">>, <<"data">> >>)
RECURSIVE Ty(_, _)
Ty(s, d) == IF d = 0 \/ Chance(Sub(s, 1), 15) THEN Leaf(Sub(s, 2))
  ELSE LET k == PickW(Sub(s, 3), << <<3, "arr">>, <<3, "tup">>, <<3, "rec">>, <<4, "opt">>, <<2, "set">>, <<2, "map">>, <<4, "named">> >>) IN
       CASE k = "arr" -> <<"arr", Ty(Sub(s, 4), d - 1)>>
         [] k = "tup" -> LET n == 1 + Rnd(Sub(s, 5), 3) IN <<"tup", "", [i \in 1..n |-> Ty(Sub(s, 10 + i), d - 1)]>>
         [] k = "rec" -> LET f == FieldsOf(Sub(s, 5)) IN <<"rec", "", f, [i \in 1..Len(f) |-> Ty(Sub(s, 10 + i), d - 1)]>>
         [] k = "opt" -> Option(Ty(Sub(s, 4), d - 1))
         [] k = "set" -> <<"set", Key(Sub(s, 4))>>
         [] k = "map" -> <<"map", Key(Sub(s, 4)), Ty(Sub(s, 5), d - 1)>>
         [] OTHER -> PickW(Sub(s, 4), << <<4, E1>>, <<2, E2>>, <<2, S>>, <<2, T>>, <<2, One>> >>)
\* the same type with a part replaced
RECURSIVE Tweak(_, _)
Tweak(t, s) == IF Chance(Sub(s, 1), 25) THEN PickW(Sub(s, 2), << <<3, Leaf(Sub(s, 3))>>, <<2, Ty(Sub(s, 4), 1)>>, <<1, <<"arr", t>> >>, <<1, Option(t)>>, <<1, <<"tup", "", <<t>> >> >>, <<1, <<"unit">> >> >>)
  ELSE CASE t[1] = "arr" -> <<"arr", Tweak(t[2], Sub(s, 5))>>
         [] t[1] = "tup" /\ t[2] = "" -> LET n == Len(t[3]) IN
              IF n > 1 /\ Chance(Sub(s, 6), 25) THEN <<"tup", "", SubSeq(t[3], 1, n - 1)>> ELSE IF Chance(Sub(s, 6), 45) THEN <<"tup", "", Append(t[3], Leaf(Sub(s, 7)))>>
              ELSE LET k == 1 + Rnd(Sub(s, 8), n) IN <<"tup", "", [i \in 1..n |-> IF i = k THEN Tweak(t[3][i], Sub(s, 9)) ELSE t[3][i]]>>
         [] t[1] = "rec" /\ t[2] = "" -> LET n == Len(t[3]) IN IF n > 1 /\ Chance(Sub(s, 6), 35) THEN <<"rec", "", SubSeq(t[3], 2, n), SubSeq(t[4], 2, n)>>
              ELSE LET k == 1 + Rnd(Sub(s, 8), n) IN <<"rec", "", t[3], [i \in 1..n |-> IF i = k THEN Tweak(t[4][i], Sub(s, 9)) ELSE t[4][i]]>>
         [] t[1] = "enum" /\ t[2] = "Option" -> IF Chance(Sub(s, 6), 20) THEN E1 ELSE Option(Tweak(t[3][2][4][1], Sub(s, 7)))
         [] t[1] = "enum" -> IF t[2] = "E" THEN E2 ELSE E1
         [] t[1] = "set" -> IF Chance(Sub(s, 6), 50) THEN <<"arr", t[2]>> ELSE <<"set", Key(Sub(s, 7))>>
         [] t[1] = "map" -> PickW(Sub(s, 6), << <<1, <<"arr", <<"tup", "", <<t[2], t[3]>> >> >> >>, <<1, <<"map", t[2], Tweak(t[3], Sub(s, 7))>> >>, <<1, <<"map", Key(Sub(s, 8)), t[3]>> >> >>)
         [] t[1] \in {"int", "float"} -> PickW(Sub(s, 6), << <<1, TInt>>, <<1, <<"float">> >>, <<1, Str>> >>)
         [] OTHER -> PickW(Sub(s, 6), << <<1, S>>, <<1, T>>, <<1, Leaf(Sub(s, 7))>> >>)

(* values; the elements of a set and the entries of a map in order of insertion, without duplicates *)
RECURSIVE Dedupe(_, _), PutAll(_, _)
Dedupe(q, acc) == IF q = <<>> THEN acc ELSE Dedupe(Tail(q), IF \E i \in 1..Len(acc) : acc[i] = Head(q) THEN acc ELSE Append(acc, Head(q)))
PutAll(q, acc) == IF q = <<>> THEN acc ELSE
  PutAll(Tail(q), IF \E i \in 1..Len(acc) : acc[i][1] = Head(q)[1] THEN [i \in 1..Len(acc) |-> IF acc[i][1] = Head(q)[1] THEN Head(q) ELSE acc[i]] ELSE Append(acc, Head(q)))
RECURSIVE Val(_, _)
Vals(ts, s) == [i \in 1..Len(ts) |-> Val(ts[i], Sub(s, 20 + i))]
Val(t, s) == CASE t[1] = "unit" -> <<"unit">>
  [] t[1] = "bool" -> <<"bool", PickOf(Sub(s, 1), <<"true", "false">>)>>
  [] t[1] = "int" -> <<"int", PickOf(Sub(s, 1), IntT)>>
  [] t[1] = "float" -> <<"float", PickOf(Sub(s, 1), FloatT)>>
  [] t[1] = "str" -> <<"str", [i \in 1..Rnd(Sub(s, 1), 4) |-> PickOf(Sub(s, 10 + i), Chars)]>>
  [] t[1] = "arr" -> <<"arr", [i \in 1..Rnd(Sub(s, 1), 3) |-> Val(t[2], Sub(s, 10 + i))]>>
  [] t[1] = "tup" -> <<"tup", Vals(t[3], s)>>
  [] t[1] = "rec" -> <<"rec", Vals(t[4], s)>>
  [] t[1] = "set" -> <<"set", Dedupe([i \in 1..Rnd(Sub(s, 1), 4) |-> Val(t[2], Sub(s, 10 + i))], <<>>)>>
  [] t[1] = "map" -> <<"map", PutAll([i \in 1..Rnd(Sub(s, 1), 4) |-> <<Val(t[2], Sub(s, 10 + i)), Val(t[3], Sub(s, 30 + i))>>], <<>>)>>
  [] OTHER -> LET c == PickOf(Sub(s, 1), t[3]) IN <<"var", c[1], Vals(c[4], s)>>

(* what a value is serialized to *)
Rank == [a |-> 1, b |-> 2, data |-> 3, type |-> 4, x |-> 5, y |-> 6]
RECURSIVE Data(_, _)
RecData(ns, ts, vs) == LET ord == SetToSortSeq(1..Len(ns), LAMBDA i, j : Rank[ns[i]] < Rank[ns[j]]) IN
  <<"Record", [k \in 1..Len(ns) |-> << <<ns[ord[k]]>>, Data(ts[ord[k]], vs[ord[k]])>>]>>
TupData(ts, vs) == <<"Tuple", [i \in 1..Len(ts) |-> Data(ts[i], vs[i])]>>
CaseOf(t, n) == LET h == SelectSeq(t[3], LAMBDA c : c[1] = n) IN IF h = <<>> THEN <<>> ELSE h[1]
Data(t, v) == CASE t[1] = "unit" -> <<"Unit">> [] t[1] = "bool" -> <<"Bool", v[2]>> [] t[1] = "int" -> <<"Int", v[2]>> [] t[1] = "float" -> <<"Float", v[2]>> [] t[1] = "str" -> <<"Str", v[2]>>
  [] t[1] = "arr" -> <<"Array", [i \in 1..Len(v[2]) |-> Data(t[2], v[2][i])]>>
  [] t[1] = "set" -> <<"Set", [i \in 1..Len(v[2]) |-> Data(t[2], v[2][i])]>>
  [] t[1] = "map" -> <<"Map", [i \in 1..Len(v[2]) |-> <<Data(t[2], v[2][i][1]), Data(t[3], v[2][i][2])>>]>>
  [] t[1] = "tup" -> TupData(t[3], v[2])
  [] t[1] = "rec" -> RecData(t[3], t[4], v[2])
  [] OTHER -> LET c == CaseOf(t, v[2]) IN <<"Variant", <<c[1]>>, IF c[2] = "unit" THEN <<"Unit">> ELSE IF c[2] = "tup" THEN TupData(c[4], v[3]) ELSE RecData(c[3], c[4], v[3])>>

(* what a data value is decoded to at a type: surplus components and fields are ignored *)
Fail == <<"fail">>
RECURSIVE Dec(_, _)
All(k, q) == IF \E i \in 1..Len(q) : q[i] = Fail THEN Fail ELSE <<k, q>>
Field(q, n) == LET h == SelectSeq(q, LAMBDA e : e[1] = <<n>>) IN IF h = <<>> THEN Fail ELSE h[1][2]
DecTup(k, ts, d) == IF d[1] \notin {"Tuple", "Array"} \/ Len(d[2]) < Len(ts) THEN Fail ELSE All(k, [i \in 1..Len(ts) |-> Dec(ts[i], d[2][i])])
DecRec(k, ns, ts, d) == IF d[1] # "Record" THEN Fail ELSE All(k, [i \in 1..Len(ns) |-> LET f == Field(d[2], ns[i]) IN IF f = Fail THEN Fail ELSE Dec(ts[i], f)])
DecPair(kt, vt, k, v) == LET x == Dec(kt, k) y == Dec(vt, v) IN IF x = Fail \/ y = Fail THEN Fail ELSE <<x, y>>
DecMap(kt, vt, q) == IF \E i \in 1..Len(q) : q[i] = Fail THEN Fail ELSE LET ps == [i \in 1..Len(q) |-> DecPair(kt, vt, q[i][1], q[i][2])] IN IF \E i \in 1..Len(ps) : ps[i] = Fail THEN Fail ELSE <<"map", PutAll(ps, <<>>)>>
DecVar(t, n, p) == IF Len(n) # 1 THEN Fail ELSE LET c == CaseOf(t, n[1]) IN
  IF c = <<>> THEN Fail ELSE IF c[2] = "unit" THEN <<"var", c[1], <<>> >>
  ELSE LET r == IF c[2] = "tup" THEN DecTup("p", c[4], p) ELSE DecRec("p", c[3], c[4], p) IN IF r = Fail THEN Fail ELSE <<"var", c[1], r[2]>>
Dec(t, d) == CASE t[1] = "unit" -> IF d[1] \in {"Unit", "Null"} \/ (d[1] = "Array" /\ Len(d[2]) = 0) THEN <<"unit">> ELSE Fail
  [] t[1] = "bool" -> IF d[1] = "Bool" THEN <<"bool", d[2]>> ELSE Fail
  [] t[1] = "int" -> IF d[1] = "Int" THEN <<"int", d[2]>> ELSE IF d[1] = "Float" /\ d[2] \in DOMAIN Rounded THEN <<"int", Rounded[d[2]]>> ELSE Fail
  [] t[1] = "float" -> IF d[1] = "Float" THEN <<"float", d[2]>> ELSE IF d[1] = "Int" THEN <<"float", AsFloat(d[2])>> ELSE Fail
  [] t[1] = "str" -> IF d[1] = "Str" THEN <<"str", d[2]>> ELSE Fail
  [] t[1] = "arr" -> IF d[1] # "Array" THEN Fail ELSE All("arr", [i \in 1..Len(d[2]) |-> Dec(t[2], d[2][i])])
  [] t[1] = "set" -> IF d[1] \notin {"Set", "Array"} THEN Fail ELSE LET r == All("set", [i \in 1..Len(d[2]) |-> Dec(t[2], d[2][i])]) IN IF r = Fail THEN Fail ELSE <<"set", Dedupe(r[2], <<>>)>>
  [] t[1] = "map" -> IF d[1] = "Map" THEN DecMap(t[2], t[3], d[2])
       ELSE IF d[1] = "Array" THEN DecMap(t[2], t[3], [i \in 1..Len(d[2]) |-> LET e == d[2][i] IN IF e[1] \notin {"Tuple", "Array"} THEN Fail ELSE IF Len(e[2]) < 2 THEN Fail ELSE e[2]]) ELSE Fail
  [] t[1] = "tup" -> DecTup("tup", t[3], d)
  [] t[1] = "rec" -> DecRec("rec", t[3], t[4], d)
  [] OTHER -> IF d[1] = "Variant" THEN DecVar(t, d[2], d[3])
       ELSE IF d[1] # "Record" THEN Fail ELSE LET n == Field(d[2], "type") p == Field(d[2], "data") IN IF n[1] # "Str" THEN Fail ELSE DecVar(t, n[2], IF p = Fail THEN <<"Unit">> ELSE p)

-----------------------------------------------------------------------------
(* tokens: <<"p", s>> punctuation, <<"s", chars>> string, <<"n", text>> number, <<"id", s>> identifier *)
P(x) == << <<"p", x>> >>
RECURSIVE Comma(_), JT(_), TT(_)
Comma(qs) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o P(",") \o Comma(Tail(qs))
JList(q) == P("[") \o Comma([i \in 1..Len(q) |-> JT(q[i])]) \o P("]")
JT(d) == CASE d[1] \in {"Unit", "Null"} -> << <<"id", "null">> >> [] d[1] = "Bool" -> << <<"id", d[2]>> >> [] d[1] \in {"Int", "Float"} -> << <<"n", d[2]>> >> [] d[1] = "Str" -> << <<"s", d[2]>> >>
  [] d[1] \in {"Array", "Tuple", "Set"} -> JList(d[2])
  [] d[1] = "Map" -> JList([i \in 1..Len(d[2]) |-> <<"Tuple", d[2][i]>>])
  [] d[1] = "Record" -> P("{") \o Comma([i \in 1..Len(d[2]) |-> << <<"s", d[2][i][1]>> >> \o P(":") \o JT(d[2][i][2])]) \o P("}")
  [] OTHER -> P("{") \o << <<"s", <<"type">> >> >> \o P(":") \o << <<"s", d[2]>> >> \o (IF d[3][1] = "Unit" THEN <<>> ELSE P(",") \o << <<"s", <<"data">> >> >> \o P(":") \o JT(d[3])) \o P("}")
TList(o, q, c) == P(o) \o Comma([i \in 1..Len(q) |-> TT(q[i])]) \o P(c)
TT(d) == CASE d[1] = "Unit" -> P("(") \o P(")") [] d[1] = "Null" -> << <<"id", "null">> >> [] d[1] = "Bool" -> << <<"id", d[2]>> >> [] d[1] \in {"Int", "Float"} -> << <<"n", d[2]>> >> [] d[1] = "Str" -> << <<"s", d[2]>> >>
  [] d[1] = "Array" -> TList("[", d[2], "]")
  [] d[1] = "Tuple" -> P("(") \o Comma([i \in 1..Len(d[2]) |-> TT(d[2][i])]) \o (IF Len(d[2]) = 1 THEN P(",") ELSE <<>>) \o P(")")
  [] d[1] = "Set" -> << <<"id", "set">> >> \o TList("{", d[2], "}")
  [] d[1] = "Map" -> << <<"id", "map">> >> \o P("{") \o Comma([i \in 1..Len(d[2]) |-> TT(d[2][i][1]) \o P("=>") \o TT(d[2][i][2])]) \o P("}")
  [] d[1] = "Record" -> P("{") \o Comma([i \in 1..Len(d[2]) |-> << <<"id", d[2][i][1][1]>> >> \o P(":") \o TT(d[2][i][2])]) \o P("}")
  [] OTHER -> << <<"id", d[2][1]>> >> \o (IF d[3][1] = "Unit" THEN <<>>
       \* one argument that is a record is told from a record payload by a comma
       ELSE IF d[3][1] = "Tuple" THEN P("(") \o Comma([i \in 1..Len(d[3][2]) |-> TT(d[3][2][i])]) \o (IF Len(d[3][2]) = 1 /\ d[3][2][1][1] = "Record" THEN P(",") ELSE <<>>) \o P(")")
       ELSE P("(") \o TT(d[3]) \o P(")"))

(* reading: <<ok, data, next position>> *)
No == <<FALSE, <<"none">>, 0>>
Is(t, i, x) == i <= Len(t) /\ t[i][1] = "p" /\ t[i][2] = x
Number(n) == IF IsInt(n) THEN <<"Int", n>> ELSE <<"Float", n>>
RECURSIVE PJ(_, _), PJSeq(_, _, _), PJRec(_, _, _)
PJSeq(t, i, acc) == LET r == PJ(t, i) IN IF ~r[1] THEN No ELSE IF Is(t, r[3], ",") THEN PJSeq(t, r[3] + 1, Append(acc, r[2])) ELSE IF Is(t, r[3], "]") THEN <<TRUE, <<"Array", Append(acc, r[2])>>, r[3] + 1>> ELSE No
PJRec(t, i, acc) == IF i > Len(t) \/ t[i][1] # "s" \/ ~Is(t, i + 1, ":") THEN No ELSE LET r == PJ(t, i + 2) a == Append(acc, <<t[i][2], r[2]>>) IN
  IF ~r[1] THEN No ELSE IF Is(t, r[3], ",") THEN PJRec(t, r[3] + 1, a) ELSE IF Is(t, r[3], "}") THEN <<TRUE, <<"Record", a>>, r[3] + 1>> ELSE No
PJ(t, i) == IF i > Len(t) THEN No ELSE LET k == t[i] IN
  CASE k[1] = "n" -> <<TRUE, Number(k[2]), i + 1>> [] k[1] = "s" -> <<TRUE, <<"Str", k[2]>>, i + 1>>
    [] k[1] = "id" -> IF k[2] = "null" THEN <<TRUE, <<"Null">>, i + 1>> ELSE IF k[2] \in {"true", "false"} THEN <<TRUE, <<"Bool", k[2]>>, i + 1>> ELSE No
    [] k[2] = "[" -> IF Is(t, i + 1, "]") THEN <<TRUE, <<"Array", <<>> >>, i + 2>> ELSE PJSeq(t, i + 1, <<>>)
    [] k[2] = "{" -> IF Is(t, i + 1, "}") THEN <<TRUE, <<"Record", <<>> >>, i + 2>> ELSE PJRec(t, i + 1, <<>>)
    [] OTHER -> No
RECURSIVE PT(_, _), PTSeq(_, _, _, _), PTRec(_, _, _), PTMap(_, _, _)
\* items up to the closing token, the last may be followed by a comma: <<ok, items, next, trailing comma>>
PTSeq(t, i, c, acc) == IF Is(t, i, c) THEN <<TRUE, acc, i + 1, acc # <<>> >> ELSE LET r == PT(t, i) a == Append(acc, r[2]) IN
  IF ~r[1] THEN No ELSE IF Is(t, r[3], ",") THEN PTSeq(t, r[3] + 1, c, a) ELSE IF Is(t, r[3], c) THEN <<TRUE, a, r[3] + 1, FALSE>> ELSE No
PTRec(t, i, acc) == IF Is(t, i, "}") THEN <<TRUE, <<"Record", acc>>, i + 1>> ELSE IF i > Len(t) \/ t[i][1] \notin {"s", "id"} \/ ~Is(t, i + 1, ":") THEN No ELSE
  LET r == PT(t, i + 2) a == Append(acc, <<IF t[i][1] = "s" THEN t[i][2] ELSE <<t[i][2]>>, r[2]>>) IN
  IF ~r[1] THEN No ELSE IF Is(t, r[3], ",") THEN PTRec(t, r[3] + 1, a) ELSE IF Is(t, r[3], "}") THEN <<TRUE, <<"Record", a>>, r[3] + 1>> ELSE No
PTMap(t, i, acc) == IF Is(t, i, "}") THEN <<TRUE, <<"Map", acc>>, i + 1>> ELSE LET k == PT(t, i) IN IF ~k[1] \/ ~Is(t, k[3], "=>") THEN No ELSE
  LET r == PT(t, k[3] + 1) a == Append(acc, <<k[2], r[2]>>) IN
  IF ~r[1] THEN No ELSE IF Is(t, r[3], ",") THEN PTMap(t, r[3] + 1, a) ELSE IF Is(t, r[3], "}") THEN <<TRUE, <<"Map", a>>, r[3] + 1>> ELSE No
Ok(k, r) == IF r[1] THEN <<TRUE, <<k, r[2]>>, r[3]>> ELSE No
PT(t, i) == IF i > Len(t) THEN No ELSE LET k == t[i] IN
  CASE k[1] = "n" -> <<TRUE, Number(k[2]), i + 1>> [] k[1] = "s" -> <<TRUE, <<"Str", k[2]>>, i + 1>>
    [] k[1] = "p" /\ k[2] = "[" -> Ok("Array", PTSeq(t, i + 1, "]", <<>>))
    [] k[1] = "p" /\ k[2] = "{" -> PTRec(t, i + 1, <<>>)
    [] k[1] = "p" /\ k[2] = "(" -> IF Is(t, i + 1, ")") THEN <<TRUE, <<"Unit">>, i + 2>>
         ELSE LET r == PTSeq(t, i + 1, ")", <<>>) IN IF ~r[1] THEN No ELSE IF Len(r[2]) = 1 /\ ~r[4] THEN <<TRUE, r[2][1], r[3]>> ELSE <<TRUE, <<"Tuple", r[2]>>, r[3]>>
    [] k[1] = "p" -> No
    [] k[2] = "null" -> <<TRUE, <<"Null">>, i + 1>>
    [] k[2] \in {"true", "false"} -> <<TRUE, <<"Bool", k[2]>>, i + 1>>
    [] k[2] = "set" -> IF Is(t, i + 1, "{") THEN Ok("Set", PTSeq(t, i + 2, "}", <<>>)) ELSE No
    [] k[2] = "map" -> IF Is(t, i + 1, "{") THEN PTMap(t, i + 2, <<>>) ELSE No
    [] OTHER -> IF ~Is(t, i + 1, "(") THEN <<TRUE, <<"Variant", <<k[2]>>, <<"Unit">> >>, i + 1>> ELSE IF Is(t, i + 2, ")") THEN <<TRUE, <<"Variant", <<k[2]>>, <<"Unit">> >>, i + 3>>
         ELSE LET r == PTSeq(t, i + 2, ")", <<>>) IN IF ~r[1] THEN No
         ELSE IF Len(r[2]) = 1 /\ ~r[4] /\ r[2][1][1] = "Record" THEN <<TRUE, <<"Variant", <<k[2]>>, r[2][1]>>, r[3]>> ELSE <<TRUE, <<"Variant", <<k[2]>>, <<"Tuple", r[2]>> >>, r[3]>>
ReadJ(t) == LET r == PJ(t, 1) IN IF r[1] /\ r[3] = Len(t) + 1 THEN r[2] ELSE Fail
ReadT(t) == LET r == PT(t, 1) IN IF r[1] /\ r[3] = Len(t) + 1 THEN r[2] ELSE Fail
DecOf(t, d) == IF d = Fail THEN Fail ELSE Dec(t, d)

-----------------------------------------------------------------------------
GenCase(n) == LET s == Seed(n) t == Ty(Sub(s, 1), 3) IN
  [t |-> t, v |-> Val(t, Sub(s, 2)), u |-> IF Chance(Sub(s, 3), 45) THEN t ELSE IF Chance(Sub(s, 4), 85) THEN Tweak(t, Sub(s, 5)) ELSE Ty(Sub(s, 6), 2)]
Other(s) == PickW(s, << <<1, <<"p", ",">> >>, <<1, <<"p", "[">> >>, <<1, <<"p", "]">> >>, <<1, <<"p", "{">> >>, <<1, <<"p", "}">> >>, <<1, <<"p", ":">> >>, <<2, <<"n", "1">> >>, <<1, <<"n", "9223372036854776000">> >>,
                       <<2, <<"id", "null">> >>, <<1, <<"id", "true">> >>, <<2, <<"s", <<"a">> >> >>, <<1, <<"s", <<"type">> >> >>, <<1, <<"id", "A">> >>, <<1, <<"p", "(">> >>, <<1, <<"p", ")">> >> >>)
Edit(q, s) == LET n == Len(q) i == 1 + Rnd(Sub(s, 1), n) k == PickW(Sub(s, 2), << <<3, "drop">>, <<2, "double">>, <<2, "swap">>, <<4, "put">>, <<2, "insert">>, <<2, "cut">> >>) IN
  CASE k = "drop" -> SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, n) [] k = "double" -> SubSeq(q, 1, i) \o SubSeq(q, i, n)
    [] k = "swap" -> IF i = n THEN q ELSE SubSeq(q, 1, i - 1) \o <<q[i + 1], q[i]>> \o SubSeq(q, i + 2, n)
    [] k = "put" -> [q EXCEPT ![i] = Other(Sub(s, 3))] [] k = "insert" -> SubSeq(q, 1, i - 1) \o <<Other(Sub(s, 3))>> \o SubSeq(q, i, n)
    [] OTHER -> SubSeq(q, 1, i - 1)
Init == seed \in SeedLo..SeedHi /\ case = GenCase(seed) /\ toks = <<>> /\ st = "start"
Encode == st = "start" /\ st' = "text" /\ LET d == Data(case.t, case.v) IN toks' = <<JT(d), TT(d)>> /\ UNCHANGED <<seed, case>>
Keep == st = "text" /\ st' = "intact" /\ UNCHANGED <<seed, case, toks>>
EditStep == st = "text" /\ st' = "edited" /\ \E k \in 1..2 : LET s == Sub(Seed(seed), 50 + k) IN
    LET j == Edit(toks[1], Sub(s, 1)) x == Edit(toks[2], Sub(s, 2)) IN
    toks' = (IF k = 2 /\ Len(j) > 0 /\ Len(x) > 0 THEN <<Edit(j, Sub(s, 3)), Edit(x, Sub(s, 4))>> ELSE <<j, x>>) /\ UNCHANGED <<seed, case>>
Decode == st \in {"intact", "edited"} /\ st' = "done" /\ UNCHANGED <<seed, case, toks>>
    /\ PrintT(ToJson([seed |-> seed, t |-> case.t, v |-> case.v, u |-> case.u, how |-> st, j |-> toks[1], x |-> toks[2],
         d |-> Dec(case.u, Data(case.t, case.v)), dj |-> DecOf(case.u, ReadJ(toks[1])), dx |-> DecOf(case.u, ReadT(toks[2])),
         jok |-> ReadJ(toks[1]) # Fail, xok |-> ReadT(toks[2]) # Fail]))
Next == Encode \/ Keep \/ EditStep \/ Decode
Spec == Init /\ [][Next]_vars
RoundTrip == st = "intact" => /\ Dec(case.t, Data(case.t, case.v)) = case.v
                              /\ DecOf(case.t, ReadJ(toks[1])) = case.v /\ DecOf(case.t, ReadT(toks[2])) = case.v
=============================================================================
