--------------------------------- MODULE Lmf ---------------------------------
(* One Adagrad step of logistic matrix factorization on one row, in fixed     *)
(* point (S = 10^4).  x: the row's factors; Y: the factors of the other side; *)
(* row: its entries <<id, 4 * value>>; negs: how often each row of the other  *)
(* side is drawn as a negative; lr, reg: thousandths.                         *)
EXTENDS Sigmoid
S == 10000
DotS(a, b) == SumTo(Len(a), LAMBDA k : RDiv(a[k] * b[k], S))
Sg(x, y) == RDiv(Sigmoid6(DotS(x, y), S), 100)
L1(a) == SumTo(Len(a), LAMBDA k : Abs(a[k]))
\* gradient of sum over entries of value*(x.y) - value*log(1+exp(x.y)), minus log(1+exp) over
\* the negatives, minus reg/2 |x|^2; at scale S
Gradient(x, Y, row, negs, reg) ==
  LET sg == TLCEval([j \in DOMAIN Y |-> IF negs[j] > 0 \/ \E m \in 1..Len(row) : row[m][1] + 1 = j THEN Sg(x, Y[j]) ELSE 0])
      neg == TLCEval({j \in DOMAIN Y : negs[j] > 0})
  IN [k \in 1..Len(x) |->
       SumTo(Len(row), LAMBDA m : LET j == row[m][1] + 1 IN RDiv(row[m][2] * RDiv((S - sg[j]) * Y[j][k], S), 4))
       - (IF neg = {} THEN 0 ELSE SumTo(Len(Y), LAMBDA j : IF j \in neg THEN negs[j] * RDiv(sg[j] * Y[j][k], S) ELSE 0))
       - RDiv(reg * x[k], 1000)]
\* bounds of the rounding errors of the components of the gradient (recorded factors are rounded)
GradErr(x, Y, row, negs) ==
  LET eSg == TLCEval([j \in DOMAIN Y |-> 2 + (Len(x) + (L1(x) + L1(Y[j])) \div S) \div 3])
      t(j, k) == 2 + ((Abs(Y[j][k]) + S) * eSg[j]) \div S
      neg == TLCEval({j \in DOMAIN Y : negs[j] > 0})
  IN [k \in 1..Len(x) |->
       2 + SumTo(Len(row), LAMBDA m : ((Abs(row[m][2]) + 4) * t(row[m][1] + 1, k)) \div 4)
       + (IF neg = {} THEN 0 ELSE SumTo(Len(Y), LAMBDA j : negs[j] * t(j, k)))]
Sq6(d) == IF Abs(d) < 40000 THEN (d * d) \div 100 ELSE RDiv(d, 10) * RDiv(d, 10)
\* x' = x + lr / sqrt(10^-6 + g) * d, where g (at scale 10^6) includes d^2
StepOk(x, x1, d, g, lr, err) ==
  LET k == Pow2Fit(g + 1)
      r == ISqrt((g + 1) * k * k)                      \* k * 1000 * sqrt(10^-6 + g)
      step == RDiv(lr * RDiv(d * k * 1000, r), 1000)
      tol == 3 + (lr * ((4000 * err) \div Max2(1, r \div k) + 1)) \div 1000
  IN Abs(x1 - x - step) <= tol
=============================================================================
