-------------------------------- MODULE NumMC --------------------------------
(***************************************************************************)
(* Integer functions: complete tables over a set of interesting operands,  *)
(* and seeded expressions over three parameters with their exact values.   *)
(***************************************************************************)
EXTENDS Word, Rng, Json, TLC
CONSTANTS Salt, NRand, LawStride, SeedLo, SeedHi
VARIABLES op, ai, seed, ph
vars == <<op, ai, seed, ph>>

-----------------------------------------------------------------------------
\* Operands
MaxW == <<255, 255, 255, 255, 255, 255, 255, 127>>
MinW == <<0, 0, 0, 0, 0, 0, 0, 128>>
Pow(k) == BitAt(k)
Fixed == << Zero, One, W_(-1), W_(2), W_(-2), W_(3), W_(-3), W_(7), W_(-7), W_(10), W_(-16), W_(63), W_(64), W_(127), W_(-128), W_(255), W_(256),
            W_(1000003), Pow(31), SubW(Pow(31), One), NegW(Pow(31)), Pow(32), SubW(Pow(32), One), NegW(Pow(32)), Add(Pow(32), One), Pow(53), Pow(62),
            NegW(Pow(62)), SubW(Pow(62), One), MaxW, SubW(MaxW, One), MinW, Add(MinW, One), <<85, 85, 85, 85, 85, 85, 85, 85>>, <<170, 170, 170, 170, 170, 170, 170, 170>> >>
\* a random operand: a random word shifted to a random width
RandW(s) == Shr(T8(LAMBDA i : Rnd(Sub(s, i), 256)), Rnd(Sub(s, 9), 64))
Operands == Fixed \o [i \in 1..NRand |-> RandW(Sub(Seed(Salt), 100 + i))]
Amounts == << 0, 1, 2, 7, 8, 9, 15, 31, 32, 33, 62, 63, -1, -2, -8, -31, -32, -63 >>
Positions == << 0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 200, -1, -64 >>

-----------------------------------------------------------------------------
Wd(w) == [k |-> "w", w |-> w]
Bo(b) == [k |-> "b", b |-> b]
Er(e) == [k |-> "e", e |-> e]
Tg(t) == [k |-> "t", t |-> t]
Bin2(o, a, b) ==
  CASE o = "add" -> Wd(Add(a, b)) [] o = "sub" -> Wd(SubW(a, b)) [] o = "mul" -> Wd(Mul(a, b))
    [] o = "idiv" -> IF b = Zero THEN Er("div") ELSE Wd(TDiv(a, b)[1])
    [] o = "rem" -> IF b = Zero THEN Er("rem") ELSE Wd(TDiv(a, b)[2])
    [] o = "idiv_euclid" -> IF b = Zero THEN Er("div") ELSE Wd(EDiv(a, b)[1])
    [] o = "mod" -> IF b = Zero THEN Er("rem") ELSE Wd(EDiv(a, b)[2])
    [] o = "bit_and" -> Wd(And(a, b)) [] o = "bit_or" -> Wd(Or(a, b)) [] o = "bit_xor" -> Wd(Xor(a, b))
    [] o = "lt" -> Bo(Less(a, b)) [] o = "le" -> Bo(~Less(b, a)) [] o = "gt" -> Bo(Less(b, a)) [] o = "ge" -> Bo(~Less(a, b))
    [] o = "eq" -> Bo(a = b) [] o = "ne" -> Bo(a # b)
    [] o = "min" -> Wd(IF Less(b, a) THEN b ELSE a) [] o = "max" -> Wd(IF Less(a, b) THEN b ELSE a)
    [] o = "cmp" -> Tg(IF Less(a, b) THEN "Less" ELSE IF a = b THEN "Equal" ELSE "Greater")
Un(o, a) ==
  CASE o = "neg" -> Wd(NegW(a)) [] o = "abs" -> Wd(Abs(a)) [] o = "signum" -> Wd(Sign(a)) [] o = "bit_not" -> Wd(Not(a))
    [] o = "count_ones" -> Wd(W_(Ones(a))) [] o = "count_zeros" -> Wd(W_(64 - Ones(a)))
\* shift amounts of magnitude below the width
ShiftOp(o, a, n) ==
  CASE o = "shift_left" -> Wd(IF n < 0 THEN Shr(a, -n) ELSE Shl(a, n))
    [] o = "shift_right" -> Wd(IF n < 0 THEN Shl(a, -n) ELSE Shr(a, n))
    [] o = "rotate_left" -> Wd(Rotl(a, n)) [] o = "rotate_right" -> Wd(Rotl(a, -n))
InW(p) == p \in 0..63
BitOp(o, a, p) ==
  CASE o = "set_bit" -> Wd(IF InW(p) THEN Or(a, BitAt(p)) ELSE a)
    [] o = "clear_bit" -> Wd(IF InW(p) THEN And(a, Not(BitAt(p))) ELSE a)
    [] o = "test_bit" -> Bo(InW(p) /\ Bit(a, p) = 1)
    [] o = "bit" -> Wd(IF InW(p) THEN BitAt(p) ELSE Zero)

BinOps == {"add", "sub", "mul", "idiv", "rem", "idiv_euclid", "mod", "bit_and", "bit_or", "bit_xor", "lt", "le", "gt", "ge", "eq", "ne", "min", "max", "cmp"}
UnOps == {"neg", "abs", "signum", "bit_not", "count_ones", "count_zeros"}
ShOps == {"shift_left", "shift_right", "rotate_left", "rotate_right"}
BtOps == {"set_bit", "clear_bit", "test_bit", "bit"}

Row(o, a) ==
  CASE o \in BinOps -> [j \in 1..Len(Operands) |-> Bin2(o, a, Operands[j])]
    [] o \in UnOps -> << Un(o, a) >>
    [] o \in ShOps -> [j \in 1..Len(Amounts) |-> ShiftOp(o, a, Amounts[j])]
    [] OTHER -> [j \in 1..Len(Positions) |-> BitOp(o, a, Positions[j])]
Second(o) == CASE o \in BinOps -> Operands [] o \in UnOps -> <<>> [] o \in ShOps -> [j \in 1..Len(Amounts) |-> W_(Amounts[j])]
               [] OTHER -> [j \in 1..Len(Positions) |-> W_(Positions[j])]

-----------------------------------------------------------------------------
(* Expressions.  Variables are numbered; "let" binds the next number.       *)
N(k, o, c) == [k |-> k, o |-> o, c |-> c]
Leaf(k, o) == [k |-> k, o |-> o, c |-> <<>>]
Small(s) == PickOf(s, << Zero, One, W_(-1), Zero, One, W_(2), W_(3), W_(7), W_(-5), MaxW, MinW >>)
LitOf(s) == Leaf("lit", IF Chance(Sub(s, 1), 75) THEN Small(Sub(s, 2)) ELSE PickOf(Sub(s, 3), Operands))
VarOf(s, n) == Leaf("var", 1 + Rnd(s, n))
RECURSIVE GI(_, _, _), GB(_, _, _)
GI(s, d, n) ==
  IF d = 0 THEN IF Chance(Sub(s, 1), 30) THEN LitOf(Sub(s, 2)) ELSE VarOf(Sub(s, 3), n)
  ELSE LET c1 == GI(Sub(s, 11), d - 1, n)
           c2 == GI(Sub(s, 12), IF Chance(Sub(s, 20), 50) THEN d - 1 ELSE 0, n)
           how == PickW(Sub(s, 4), << <<24, "arith">>, <<5, "div">>, <<5, "bits">>, <<5, "un">>, <<4, "mm">>, <<4, "shift">>, <<3, "bit">>, <<2, "clamp">>,
                                      <<10, "if">>, <<8, "let">>, <<6, "same">>, <<10, "ident">>, <<4, "ho">> >>)
       IN CASE how = "arith" -> N("bin", PickOf(Sub(s, 5), <<"add", "sub", "mul", "add", "sub">>), <<c1, c2>>)
            [] how = "div" -> N("bin", PickOf(Sub(s, 5), <<"idiv", "rem", "mod", "idiv_euclid">>), <<c1, c2>>)
            [] how = "bits" -> N("bin", PickOf(Sub(s, 5), <<"bit_and", "bit_or", "bit_xor">>), <<c1, c2>>)
            [] how = "un" -> N("un", PickOf(Sub(s, 5), <<"neg", "neg", "abs", "signum", "bit_not", "count_ones", "count_zeros">>), <<c1>>)
            [] how = "mm" -> N("bin", PickOf(Sub(s, 5), <<"min", "max">>), <<c1, c2>>)
            [] how = "shift" -> [k |-> "shift", o |-> PickOf(Sub(s, 5), <<"shift_left", "shift_right", "rotate_left", "rotate_right">>), n |-> Rnd(Sub(s, 6), 127) - 63, c |-> <<c1>>]
            [] how = "bit" -> [k |-> "bit", o |-> PickOf(Sub(s, 5), <<"set_bit", "clear_bit">>), n |-> Rnd(Sub(s, 6), 70) - 2, c |-> <<c1>>]
            [] how = "clamp" -> LET lo == Small(Sub(s, 6)) hi == Small(Sub(s, 7)) IN
                 N("clamp", "clamp", IF Less(hi, lo) THEN <<c1, Leaf("lit", hi), Leaf("lit", lo)>> ELSE <<c1, Leaf("lit", lo), Leaf("lit", hi)>>)
            [] how = "if" -> N("if", "", << GB(Sub(s, 13), 1 + Rnd(Sub(s, 21), 2), n), c1, c2 >>)
            [] how = "let" -> N("let", n + 1, << c1, GI(Sub(s, 14), d - 1, n + 1) >>)
            [] how = "same" -> N("bin", PickOf(Sub(s, 5), <<"add", "sub", "mul", "bit_xor", "idiv", "min">>), <<c1, c1>>)
            [] how = "ho" -> N("app", PickOf(Sub(s, 5), <<"add", "sub", "mul", "max">>), <<c1, c2>>)
            [] OTHER -> \* algebraic identities around their exact conditions
                 LET k == PickOf(Sub(s, 6), << Zero, One, W_(-1), W_(2) >>) l == Leaf("lit", k) o == PickOf(Sub(s, 7), <<"add", "sub", "mul", "add", "mul", "idiv", "bit_and", "bit_or">>) IN
                 IF Chance(Sub(s, 8), 50) THEN N("bin", o, <<c1, l>>) ELSE N("bin", o, <<l, c1>>)
Cmp == <<"lt", "le", "gt", "ge", "eq", "ne">>
GB(s, d, n) ==
  IF d = 0 THEN IF Chance(Sub(s, 9), 10) THEN Leaf("blit", Chance(Sub(s, 1), 50))
                ELSE N("bin", PickOf(Sub(s, 2), Cmp), << VarOf(Sub(s, 3), n), IF Chance(Sub(s, 4), 40) THEN LitOf(Sub(s, 5)) ELSE VarOf(Sub(s, 6), n) >>)
  ELSE LET b1 == GB(Sub(s, 11), d - 1, n) b2 == GB(Sub(s, 12), d - 1, n)
           how == PickW(Sub(s, 4), << <<6, "cmp">>, <<5, "not">>, <<4, "and">>, <<4, "or">>, <<2, "tb">>, <<4, "bif">>, <<2, "beq">>, <<3, "mat">> >>)
       IN CASE how = "cmp" -> N("bin", PickOf(Sub(s, 2), Cmp), << GI(Sub(s, 13), 1, n), GI(Sub(s, 14), 1, n) >>)
            [] how = "not" -> N("not", "", <<b1>>)
            [] how = "and" -> N("and", "", <<b1, b2>>) [] how = "or" -> N("or", "", <<b1, b2>>)
            [] how = "tb" -> [k |-> "bit", o |-> "test_bit", n |-> Rnd(Sub(s, 6), 70) - 2, c |-> << GI(Sub(s, 13), 1, n) >>]
            [] how = "bif" -> N("if", "", << b1, b2, GB(Sub(s, 15), d - 1, n) >>)
            [] how = "mat" -> N("if", "", << b1, Leaf("blit", Chance(Sub(s, 7), 50)), Leaf("blit", Chance(Sub(s, 8), 50)) >>)
            [] OTHER -> N(IF Chance(Sub(s, 7), 50) THEN "beq" ELSE "bne", "", <<b1, b2>>)

RECURSIVE Ev(_, _)
Ev(e, env) ==
  CASE e.k = "lit" -> Wd(e.o) [] e.k = "blit" -> Bo(e.o) [] e.k = "var" -> Wd(env[e.o])
    [] e.k \in {"bin", "app"} -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE LET b == Ev(e.c[2], env) IN IF b.k = "e" THEN b ELSE Bin2(e.o, a.w, b.w)
    [] e.k = "un" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE Un(e.o, a.w)
    [] e.k = "shift" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE ShiftOp(e.o, a.w, e.n)
    [] e.k = "bit" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE BitOp(e.o, a.w, e.n)
    [] e.k = "clamp" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE
         IF Less(a.w, e.c[2].o) THEN Wd(e.c[2].o) ELSE IF Less(e.c[3].o, a.w) THEN Wd(e.c[3].o) ELSE a
    [] e.k = "if" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE IF a.b THEN Ev(e.c[2], env) ELSE Ev(e.c[3], env)
    [] e.k = "let" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE Ev(e.c[2], Append(env, a.w))
    [] e.k = "not" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE Bo(~a.b)
    [] e.k = "and" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE IF a.b THEN Ev(e.c[2], env) ELSE a
    [] e.k = "or" -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE IF a.b THEN a ELSE Ev(e.c[2], env)
    [] OTHER -> LET a == Ev(e.c[1], env) IN IF a.k = "e" THEN a ELSE LET b == Ev(e.c[2], env) IN IF b.k = "e" THEN b ELSE Bo((a.b = b.b) = (e.k = "beq"))

\* "let" numbers the bound variable by nesting depth, as Ev does
ArgsOf(s, i) == << PickOf(Sub(s, 30 + 3 * i), Operands), PickOf(Sub(s, 31 + 3 * i), IF Chance(Sub(s, 60 + i), 40) THEN << Zero, One, W_(2), W_(-1) >> ELSE Operands),
                   IF Chance(Sub(s, 50 + i), 30) THEN PickOf(Sub(s, 30 + 3 * i), Operands) ELSE PickOf(Sub(s, 32 + 3 * i), Operands) >>
Expr(s) == IF Chance(Sub(s, 1), 70) THEN GI(Sub(s, 2), 2 + Rnd(Sub(s, 3), 3), 3) ELSE GB(Sub(s, 2), 1 + Rnd(Sub(s, 3), 3), 3)

-----------------------------------------------------------------------------
Init == \/ /\ op \in BinOps \cup UnOps \cup ShOps \cup BtOps /\ ai \in 1..Len(Operands) /\ seed = 0 /\ ph = "table"
        \/ /\ op = "expr" /\ ai = 0 /\ seed \in SeedLo..SeedHi /\ ph = "expr"
        \/ /\ op = "laws" /\ ai \in 1..Len(Operands) /\ seed = 0 /\ ph = "laws"
Table == ph = "table" /\ PrintT(ToJson([op |-> op, a |-> Operands[ai], b |-> Second(op), r |-> Row(op, Operands[ai])]))
Exprs == ph = "expr" /\ LET s == Seed(seed) e == Expr(s) IN
           PrintT(ToJson([seed |-> seed, e |-> e, args |-> [i \in 1..4 |-> ArgsOf(s, i)], r |-> [i \in 1..4 |-> Ev(e, ArgsOf(s, i))]]))
Laws == ph = "laws"
Next == (Table \/ Exprs \/ Laws) /\ ph' = "done" /\ UNCHANGED <<op, ai, seed>>
Spec == Init /\ [][Next]_vars
LawsHold == ph = "laws" => \A j \in 1..Len(Operands) : (ai + 2 * j) % LawStride = 0 => DivLaw(Operands[ai], Operands[j]) /\ BitLaw(Operands[ai], Operands[j])
=============================================================================
