------------------------------ MODULE Answers ------------------------------
(* When two answers of a query are the same answer.  Scores are               *)
(* <<kind, scaled value>> (0 a number, 1 the 'filtered out' sentinel, 2 NaN). *)
EXTENDS Base

Near(a, b, tol) == a[1] = b[1] /\ Abs(a[2] - b[2]) <= tol
SameAnswer(bi, bs, si, ss, tol) ==
  LET n == Len(si) IN
  /\ \A j \in 1..n : Near(bs[j], ss[j], tol)
  /\ \A j \in 1..n :
        \/ bi[j] = si[j]
        \* exchanged with an equally scored id of the other answer
        \/ \E k \in 1..n : si[k] = bi[j] /\ Near(ss[k], ss[j], tol)
        \* or tied with the last one, where the cut between tied ids is free
        \/ Near(ss[j], ss[n], tol)

SameRows(ai, as, bi, bs, tol) ==
  /\ Len(ai) = Len(bi) /\ Len(as) = Len(bs) /\ Len(ai) = Len(as)
  /\ \A k \in 1..Len(ai) : Len(ai[k]) = Len(bi[k]) /\ Len(as[k]) = Len(bs[k])
                          /\ SameAnswer(ai[k], as[k], bi[k], bs[k], tol)
=============================================================================
