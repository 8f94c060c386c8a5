-------------------------------- MODULE Big ---------------------------------
(* Integers beyond 32 bits, as sequences of signed limbs in base 1000, least  *)
(* significant first; sums and products may have any coefficients.           *)
EXTENDS Base
LOCAL B == 1000
RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<Sign(n) * (Abs(n) % B)>> \o LimbsOf(Sign(n) * (Abs(n) \div B))
LOCAL At(a, k) == IF k \in 1..Len(a) THEN a[k] ELSE 0
BigAdd(a, b) == [k \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> At(a, k) + At(b, k)]
BigNeg(a) == [k \in 1..Len(a) |-> -a[k]]
BigMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE [k \in 1..(Len(a) + Len(b) - 1) |-> SumTo(Len(a), LAMBDA i : a[i] * At(b, k + 1 - i))]
RECURSIVE BigDot(_, _)
BigDot(a, b) == IF a = <<>> THEN <<>> ELSE BigAdd(BigMul(a[1], b[1]), BigDot(Tail(a), Tail(b)))
\* times 1000^n
BigShift(a, n) == [k \in 1..n |-> 0] \o a
RECURSIVE Carried(_, _)
Carried(a, c) == IF a = <<>> THEN IF c \in {0, -1} THEN <<c>> ELSE <<c % B>> \o Carried(a, c \div B)
                 ELSE <<(a[1] + c) % B>> \o Carried(Tail(a), (a[1] + c) \div B)
\* |a| <= n, where n < 10^9: all digits beyond the third are those of zero
LOCAL UpTo(d, n) == /\ \A k \in 4..Len(d) : d[k] = 0
                    /\ At(d, 1) + B * At(d, 2) + B * B * At(d, 3) <= n
BigWithin(a, n) == \/ LET d == TLCEval(Carried(a, 0)) IN d[Len(d)] = 0 /\ UpTo(d, n)
                   \/ LET d == TLCEval(Carried(BigNeg(a), 0)) IN d[Len(d)] = 0 /\ UpTo(d, n)
=============================================================================
