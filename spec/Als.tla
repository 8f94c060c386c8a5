--------------------------------- MODULE Als --------------------------------
(* The weighted least squares problem of one row of an ALS model.             *)
(* Y: the factors of the other side, a sequence of integer vectors.           *)
(* A row is a sequence of <<id, c4>>, 4 times the value given by the caller;  *)
(* a4 = 4 * alpha, l16 = 16 * regularization: everything below is an integer, *)
(* 16 times the real quantity.                                                *)
EXTENDS Base

\* 16 * confidence and preference of an entry; absent entries have confidence 1, preference 0
Conf16(c4, a4) == Abs(a4 * c4)
Pref(c4) == IF c4 > 0 THEN 1 ELSE 0

Gram(Y) == LET f == Len(Y[1]) IN
  [p \in 1..f |-> [q \in 1..f |-> SumTo(Len(Y), LAMBDA j : Y[j][p] * Y[j][q])]]
\* 16 * (Y'Y + Y'(C - I)Y + regularization I)
NormalA(Y, G, row, a4, l16) ==
  LET f == Len(Y[1]) IN
  [p \in 1..f |-> [q \in 1..f |->
     16 * G[p][q] + (IF p = q THEN l16 ELSE 0)
     + SumTo(Len(row), LAMBDA k : (Conf16(row[k][2], a4) - 16) * Y[row[k][1] + 1][p] * Y[row[k][1] + 1][q])]]
\* 16 * Y'C p
NormalB(Y, row, a4) ==
  LET f == Len(Y[1]) IN
  [p \in 1..f |-> SumTo(Len(row), LAMBDA k : Pref(row[k][2]) * Conf16(row[k][2], a4) * Y[row[k][1] + 1][p])]

RowSum(A, p) == SumTo(Len(A), LAMBDA q : Abs(A[p][q]))
\* x is the solution, recorded as xs = round(S * x)
Solves(A, b, xs, S, slack) ==
  \A p \in 1..Len(A) : Abs(Dot(A[p], xs) - S * b[p]) <= RowSum(A, p) * slack + 2

\* the objective, by its definition over all items: sum c (p - x.y)^2 + regularization |x|^2
\* (times 16), for an integer x
Objective(Y, row, a4, l16, x) ==
  LET Entry(j) == {k \in 1..Len(row) : row[k][1] = j - 1}
      Term(j) == IF Entry(j) = {} THEN 16 * Dot(x, Y[j]) * Dot(x, Y[j])
                 ELSE LET e == row[CHOOSE k \in Entry(j) : TRUE]
                          d == Pref(e[2]) - Dot(x, Y[j])
                      IN Conf16(e[2], a4) * d * d
  IN SumTo(Len(Y), Term) + l16 * Dot(x, x)
=============================================================================
