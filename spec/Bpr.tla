--------------------------------- MODULE Bpr ---------------------------------
(* One sample of BPR training in fixed point (S = 10^4).  X[u], Y[i] are      *)
(* factor vectors, the last component of Y being the item bias and of X the   *)
(* constant 1.  lr1000, reg1000: thousandths.                                 *)
EXTENDS Sigmoid
S == 10000
Scale(x, k1000) == RDiv(x * k1000, 1000)
DotS(a, b) == SumTo(Len(a), LAMBDA k : RDiv(a[k] * b[k], S))
ScoreDiff(x, l, d) == DotS(x, [k \in 1..Len(l) |-> l[k] - d[k]])
\* z = 1 / (1 + exp(score)), scaled by S
Z(score) == RDiv(Sigmoid6(-score, S), 100)
Mul(a, b) == RDiv(a * b, S)
UserStep(x, l, d, z, lr, reg) ==
  [k \in 1..Len(x) |-> IF k = Len(x) THEN x[k]
                       ELSE x[k] + Scale(Mul(z, l[k] - d[k]) - Scale(x[k], reg), lr)]
LikedStep(x, y, z, lr, reg) ==
  [k \in 1..Len(y) |-> y[k] + Scale((IF k = Len(y) THEN z ELSE Mul(z, x[k])) - Scale(y[k], reg), lr)]
DislikedStep(x, y, z, lr, reg) ==
  [k \in 1..Len(y) |-> y[k] + Scale(-(IF k = Len(y) THEN z ELSE Mul(z, x[k])) - Scale(y[k], reg), lr)]
=============================================================================
