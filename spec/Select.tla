-------------------------------- MODULE Select ------------------------------
(* The streaming selection used by every exact query: scan the scores of one  *)
(* row, keep the best k in a bounded min-heap, sort them at the end.  Filters *)
(* are applied by overwriting a score with a value below every real score.    *)
(* Checked for every score vector with small values (so with every pattern of *)
(* ties), every filter set and every k against TopN.                          *)
EXTENDS TopN
CONSTANTS MaxN, MaxScore, Bug
VARIABLES score, filt, k, col, heap, out
vars == <<score, filt, k, col, heap, out>>

SENT == -100
N == Len(score)
Val(c) == IF c \in filt THEN SENT ELSE score[c + 1]
\* heap order of std::pair: score first, then id
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Smallest == CHOOSE x \in heap : \A y \in heap : x = y \/ Less(x, y)

Init == /\ \E n \in 1..MaxN : score \in [1..n -> 0..MaxScore]
        /\ filt \in SUBSET (0..(Len(score) - 1))
        /\ k \in 1..(Len(score) + 1)
        /\ col = 0 /\ heap = {} /\ out = <<>>

K == IF Bug = "nopad" THEN k ELSE Min2(k, N)
Scan == /\ col < N
        /\ LET x == <<Val(col), col>>
               better == IF Bug = "ge" THEN x[1] < Smallest[1] ELSE x[1] > Smallest[1]
           IN heap' = IF Cardinality(heap) < K THEN heap \cup {x}
                      ELSE IF better THEN (heap \ {Smallest}) \cup {x} ELSE heap
        /\ col' = col + 1
        /\ UNCHANGED <<score, filt, k, out>>
RECURSIVE SortDesc(_)
SortDesc(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(y, x)
                    IN <<m>> \o SortDesc(S \ {m})
Finish == /\ col = N /\ out = <<>>
          /\ out' = LET s == SortDesc(heap)
                    IN IF Bug = "nopad" THEN s \o [i \in 1..(k - Len(s)) |-> <<0, 0>>] ELSE s
          /\ UNCHANGED <<score, filt, k, col, heap>>
Next == Scan \/ Finish
Spec == Init /\ [][Next]_vars

Answer == [i \in 1..Len(out) |-> out[i][2]]
Sentinels == [i \in 1..Len(out) |-> out[i][1] = SENT]
Better(a, b) == score[a + 1] > score[b + 1]
Exact == out # <<>> =>
           Failing(TopNClauses(Answer, Sentinels, 0..(N - 1), (0..(N - 1)) \ filt, k, Better)) = {}
HeapBounded == Cardinality(heap) <= k
=============================================================================
