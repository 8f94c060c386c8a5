-------------------------------- MODULE Base --------------------------------
(* Arithmetic and sequence helpers shared by every module.  Ids in recorded   *)
(* events are 0-based (as in the library); sequences are 1-based.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumTo(n, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, [i \in 1..n |-> i])
Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * b[i], 0, a)
Norm2(a) == Dot(a, a)

Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Elems(s) == {s[i] : i \in 1..Len(s)}

(* floor of the square root, for 0 <= n < 2^31 *)
RECURSIVE ISqrtBetween(_, _, _)
ISqrtBetween(n, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF mid * mid <= n THEN ISqrtBetween(n, mid, hi) ELSE ISqrtBetween(n, lo, mid)
ISqrt(n) == ISqrtBetween(n, 0, 46341)

(* the largest power of two k with n * k^2 < 2^30 *)
RECURSIVE Pow2Grow(_, _)
Pow2Grow(n, k) == IF n * k * k < 268435456 THEN Pow2Grow(n, 2 * k) ELSE k
Pow2Fit(n) == IF n = 0 THEN 1 ELSE Pow2Grow(n, 1)

(* rounding division (to nearest) for any sign *)
RDiv(a, b) == IF b < 0 THEN (-a + (-b) \div 2) \div (-b) ELSE (a + b \div 2) \div b

(* names of the clauses whose condition is FALSE *)
Failing(clauses) == {c[1] : c \in {x \in clauses : ~x[2]}}
(* the verdict on event i of trace c: printed when some clause fails *)
Report(c, i, fails) == IF fails = {} THEN TRUE ELSE PrintT(<<"FAIL", c, i, fails>>)
=============================================================================
