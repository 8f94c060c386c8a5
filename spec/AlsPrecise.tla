----------------------------- MODULE AlsPrecise ------------------------------
(* Solutions of the least squares problem in double precision: factors K / Z   *)
(* (K integers), confidences c / Q and regularization l; the solution recorded *)
(* as limbs of round(10^12 x).  Multiplied by Q Z^2 the equations are          *)
(* (Q K'K + K'(C - Q)K + l Q Z^2) x = Z K'C p.                                 *)
EXTENDS Als, Big
PreciseA(K, row, l, Z, Q) ==
  LET f == Len(K[1]) IN
  [p \in 1..f |-> [q \in 1..f |->
     Q * SumTo(Len(K), LAMBDA j : K[j][p] * K[j][q]) + (IF p = q THEN l * Z * Z * Q ELSE 0)
     + SumTo(Len(row), LAMBDA k : (Abs(row[k][2]) - Q) * K[row[k][1] + 1][p] * K[row[k][1] + 1][q])]]
PreciseB(K, row, Z) ==
  [p \in 1..Len(K[1]) |-> Z * SumTo(Len(row), LAMBDA k : Pref(row[k][2]) * row[k][2] * K[row[k][1] + 1][p])]
\* the recorded x is off by at most 10^-12, of which half is the rounding of the record
PreciseSolution(K, row, l, Z, Q, x, slack) ==
  LET A == TLCEval(PreciseA(K, row, l, Z, Q))
      b == TLCEval(PreciseB(K, row, Z))
  IN \A p \in 1..Len(A) :
       BigWithin(BigAdd(BigDot([q \in 1..Len(A) |-> LimbsOf(A[p][q])], x), BigNeg(BigShift(LimbsOf(b[p]), 4))),
                 RowSum(A, p) + slack)
PreciseFails(e) ==
  Failing({ <<"one_row_each", Len(e.x) = Len(e.rows)>>,
            <<"solution_in_double_precision",
               \A k \in 1..Min2(Len(e.x), Len(e.rows)) : PreciseSolution(e.K, e.rows[k], e.l, e.Z, e.Q, e.x[k], e.slack)>> })
=============================================================================
