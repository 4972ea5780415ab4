-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* The language's int: 64-bit two's complement words, as eight bytes,      *)
(* least significant first.  TLC's own integers are 32 bits wide, so every *)
(* operation is defined here byte by byte (or bit by bit).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* explicit tuples: TLC evaluates them once, function constructors again at every application
T8(F(_)) == << F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8) >>

RECURSIVE Byte_(_, _)
Byte_(n, i) == IF i = 1 THEN n % 256 ELSE Byte_(n \div 256, i - 1)
W_(n) == T8(LAMBDA i : Byte_(n, i))            \* of a small integer
Zero == W_(0)
One == W_(1)
Neg(a) == a[8] >= 128

RECURSIVE AddC(_, _, _, _)
AddC(a, b, c, i) == IF i > 8 THEN <<>> ELSE LET s == a[i] + b[i] + c IN << s % 256 >> \o AddC(a, b, s \div 256, i + 1)
Not(a) == T8(LAMBDA i : 255 - a[i])
Add(a, b) == AddC(a, b, 0, 1)
NegW(a) == AddC(Not(a), Zero, 1, 1)
SubW(a, b) == AddC(a, Not(b), 1, 1)
Abs(a) == IF Neg(a) THEN NegW(a) ELSE a
Sign(a) == IF Neg(a) THEN W_(-1) ELSE IF a = Zero THEN Zero ELSE One

\* schoolbook product, modulo 2^64
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, c, k) == IF k > 8 THEN <<>> ELSE LET s == Col(a, b, k, 1) + c IN << s % 256 >> \o MulC(a, b, s \div 256, k + 1)
Mul(a, b) == MulC(a, b, 0, 1)

\* unsigned comparison, signed comparison
RECURSIVE ULess_(_, _, _)
ULess_(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULess_(a, b, i - 1)
ULess(a, b) == ULess_(a, b, 8)
Less(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE ULess(a, b)

\* bits, least significant first
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(a, i) == (a[i \div 8 + 1] \div P2[(i % 8) + 1]) % 2     \* i in 0..63
FromBits(F(_)) == T8(LAMBDA k : LET b == (k - 1) * 8 IN
   F(b) + 2 * F(b+1) + 4 * F(b+2) + 8 * F(b+3) + 16 * F(b+4) + 32 * F(b+5) + 64 * F(b+6) + 128 * F(b+7))
And(a, b) == FromBits(LAMBDA i : Bit(a, i) * Bit(b, i))
Or(a, b) == FromBits(LAMBDA i : IF Bit(a, i) + Bit(b, i) > 0 THEN 1 ELSE 0)
Xor(a, b) == FromBits(LAMBDA i : (Bit(a, i) + Bit(b, i)) % 2)
\* shifts by 0..63; a right shift preserves the sign
Shl(a, n) == FromBits(LAMBDA i : IF i < n THEN 0 ELSE Bit(a, i - n))
Shr(a, n) == FromBits(LAMBDA i : IF i + n > 63 THEN Bit(a, 63) ELSE Bit(a, i + n))
Rotl(a, n) == FromBits(LAMBDA i : Bit(a, (i - n) % 64))
RECURSIVE Ones_(_, _)
Ones_(a, i) == IF i = 64 THEN 0 ELSE Bit(a, i) + Ones_(a, i + 1)
Ones(a) == Ones_(a, 0)
BitAt(p) == T8(LAMBDA i : IF p \div 8 + 1 = i THEN P2[(p % 8) + 1] ELSE 0)   \* p in 0..63

\* unsigned division, bit by bit: <<quotient, remainder>>
Twice(r, b) == T8(LAMBDA i : (2 * r[i] + (IF i = 1 THEN b ELSE r[i - 1] \div 128)) % 256)
RECURSIVE UDiv_(_, _, _, _, _)
UDiv_(a, b, i, q, r) ==
  IF i < 0 THEN << q, r >>
  ELSE LET r2 == Twice(r, Bit(a, i))
           \* r < b <= 2^63 as unsigned, so r2 < 2^64 does not overflow
           ge == ~ULess(r2, b)
       IN UDiv_(a, b, i - 1, Twice(q, IF ge THEN 1 ELSE 0), IF ge THEN SubW(r2, b) ELSE r2)
RECURSIVE Top(_, _)
Top(a, i) == IF i = 1 \/ a[i] # 0 THEN i ELSE Top(a, i - 1)
UDiv(a, b) == IF ULess(a, b) THEN << Zero, a >> ELSE UDiv_(a, b, 8 * Top(a, 8) - 1, Zero, Zero)
\* truncated division: <<quotient, remainder>>, the remainder has the sign of the dividend
TDiv(a, b) == LET d == UDiv(Abs(a), Abs(b))
              IN << IF Neg(a) # Neg(b) THEN NegW(d[1]) ELSE d[1], IF Neg(a) THEN NegW(d[2]) ELSE d[2] >>
\* Euclidean division: the remainder is in 0..|b|-1
EDiv(a, b) == LET d == TDiv(a, b) IN
  IF ~Neg(d[2]) THEN d
  ELSE IF Neg(b) THEN << Add(d[1], One), SubW(d[2], b) >> ELSE << SubW(d[1], One), Add(d[2], b) >>

\* laws the definitions must satisfy, checked by TLC on every pair explored (NumMC)
DivLaw(a, b) == b = Zero \/
  LET t == TDiv(a, b) e == EDiv(a, b) IN
  /\ Add(Mul(t[1], b), t[2]) = a /\ Add(Mul(e[1], b), e[2]) = a
  /\ ULess(Abs(t[2]), Abs(b)) /\ ULess(e[2], Abs(b)) /\ (t[2] = Zero \/ Neg(t[2]) = Neg(a))
BitLaw(a, b) == /\ Xor(a, b) = SubW(Or(a, b), And(a, b)) /\ Add(And(a, b), Or(a, b)) = Add(a, b)
                /\ Not(Not(a)) = a /\ NegW(a) = Add(Not(a), One)
=============================================================================
