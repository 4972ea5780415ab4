--------------------------------- MODULE Rng2 ---------------------------------
(* As Rng, with a non-linear step: nearby streams are unrelated. *)
EXTENDS Integers, Sequences
Sub(s, k) == LET a == (s[1] * 171 + k * 7919 + 13) % 30269
                 b == (s[2] * 172 + a * (1 + (s[1] % 61)) + k * 31 + 7) % 30307
                 c == (a * (b + 1) + s[2] * 3 + k) % 30269
             IN << c, (b + c * (1 + (a % 53))) % 30307 >>
Seed(n) == Sub(Sub(<< (n * 7 + 1) % 30269, (n \div 97 + n * 13 + 5) % 30307 >>, 1), 2)
Rnd(s, n) == ((s[1] * 31 + s[2] * 17) \div 7) % n
Chance(s, pc) == Rnd(s, 100) < pc
PickOf(s, q) == q[1 + Rnd(s, Len(q))]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q)[1] + Total(Tail(q))
RECURSIVE PickAt(_, _)
PickAt(q, r) == IF r < Head(q)[1] THEN Head(q)[2] ELSE PickAt(Tail(q), r - Head(q)[1])
\* weighted choice from <<weight, item>> pairs
PickW(s, q) == PickAt(q, Rnd(s, Total(q)))
=============================================================================
