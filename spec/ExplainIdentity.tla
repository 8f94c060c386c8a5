-------------------------- MODULE ExplainIdentity ---------------------------
(* The decomposition behind explain, as an algebraic fact of the normal       *)
(* equations, checked for all small two-factor problems by Cramer's rule: if  *)
(* A x = b and A w = y then  det(A) * y.x  =  sum over the positive entries   *)
(* of  det(A) * conf * w.y_j.                                                 *)
EXTENDS Als
CONSTANTS MaxItems, Bug
VARIABLES Y, row, a4, item
Vals == {-1, 0, 2}
Confs == {-8, 2, 4, 12}
Init == /\ \E n \in 1..MaxItems : Y \in [1..n -> [1..2 -> Vals]]
        /\ \E m \in 1..Min2(2, Len(Y)) : row \in {[k \in 1..m |-> <<k - 1, f[k]>>] : f \in [1..m -> Confs]}
        /\ a4 \in {4, 6} /\ item \in 1..Len(Y)
Next == FALSE /\ UNCHANGED <<Y, row, a4, item>>
A == NormalA(Y, Gram(Y), row, a4, 16)
B == NormalB(Y, row, a4)
Adj(v) == <<A[2][2] * v[1] - A[1][2] * v[2], A[1][1] * v[2] - A[2][1] * v[1]>>   \* det(A) * A^-1 v
Identity == Dot(Y[item], Adj(B)) =
  SumTo(Len(row), LAMBDA k : (IF row[k][2] > 0 \/ Bug = "negatives" THEN Conf16(row[k][2], a4) ELSE 0)
                             * Dot(Adj(Y[item]), Y[row[k][1] + 1]))
=============================================================================
