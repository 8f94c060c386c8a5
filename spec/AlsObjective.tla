---------------------------- MODULE AlsObjective ----------------------------
(* The normal equations used by the specification are those of the objective: *)
(* for every small problem and every integer x,                               *)
(*    Objective(x) = x'Ax - 2 b'x + constant,   A positive definite,          *)
(* so the solution of A x = b is the unique minimum and an exact half-step    *)
(* cannot increase the objective.                                             *)
EXTENDS Als
CONSTANTS MaxItems, F, Bug
Vals == IF F = 1 THEN {-2, 0, 1, 3} ELSE {-1, 0, 2}
Confs == IF F = 1 THEN {-8, -4, 1, 4, 12} ELSE {-8, 2, 4, 12}
VARIABLES Y, row, a4
X == [1..F -> {-1, 0, 2}]
Init == /\ \E n \in 1..MaxItems : Y \in [1..n -> [1..F -> Vals]]
        /\ \E m \in 0..Min2(2, Len(Y)) : row \in {[k \in 1..m |-> <<k - 1, f[k]>>] : f \in [1..m -> Confs]}
        /\ a4 \in {4, 6}
Next == FALSE /\ UNCHANGED <<Y, row, a4>>
A == LET G == Gram(Y) IN NormalA(Y, G, row, a4, 16)
B == IF Bug = "sign" THEN [p \in 1..F |-> SumTo(Len(row), LAMBDA k : Conf16(row[k][2], a4) * Y[row[k][1] + 1][p])]
     ELSE NormalB(Y, row, a4)
Zero == [p \in 1..F |-> 0]
Expansion == \A x \in X : Objective(Y, row, a4, 16, x) - Objective(Y, row, a4, 16, Zero)
                          = SumTo(F, LAMBDA p : x[p] * Dot(A[p], x)) - 2 * Dot(B, x)
Definite == \A x \in X : x # Zero => SumTo(F, LAMBDA p : x[p] * Dot(A[p], x)) > 0
=============================================================================
