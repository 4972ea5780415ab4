--------------------------------- MODULE Rng ---------------------------------
(* Deterministic pseudo-random choices from a seed, as pure operators. *)
EXTENDS Integers, Sequences
Sub(s, k) == LET a == (((s[1] + k * 7919 + 13) % 30269) * 171 + s[2]) % 30269
             IN << a, (s[2] * 172 + a * 31 + k * 5 + 7) % 30307 >>
Seed(n) == Sub(Sub(<< (n * 7 + 1) % 30269, (n \div 97 + n * 13 + 5) % 30307 >>, 1), 2)
Rnd(s, n) == ((s[1] * 31 + s[2] * 17) \div 7) % n
Chance(s, pc) == Rnd(s, 100) < pc
PickOf(s, q) == q[1 + Rnd(s, Len(q))]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q)[1] + Total(Tail(q))
RECURSIVE PickAt(_, _)
PickAt(q, r) == IF r < Head(q)[1] THEN Head(q)[2] ELSE PickAt(Tail(q), r - Head(q)[1])
\* weighted choice from <<weight, item>> pairs
PickW(s, q) == PickAt(q, Rnd(s, Total(q)))
=============================================================================
