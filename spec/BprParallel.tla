---------------------------- MODULE BprParallel -----------------------------
(* Which rows a parallel BPR epoch may touch.  Threads take static shares of  *)
(* the samples; a sample draws two interactions, looks the disliked item up   *)
(* in the user's row by binary search, and unless found writes the user row,  *)
(* the liked and the disliked row, in separate steps interleaved with the     *)
(* other threads.  The rows of the matrix may be given in any entry order;    *)
(* they have to be sorted before training.                                    *)
EXTENDS Base
CONSTANTS NU, NI, Threads, Bug
VARIABLES rows, th, touchedU, touchedI, skipped, processed
vars == <<rows, th, touchedU, touchedI, skipped, processed>>
Users == 1..NU  Items == 1..NI
Lists == UNION {{s \in [1..n -> Items] : Distinct(s)} : n \in 0..NI}
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Inter == LET seqs == [u \in Users |-> [k \in 1..Len(rows[u]) |-> <<u, rows[u][k]>>]]
         IN FoldLeft(LAMBDA a, u : a \o seqs[u], <<>>, [u \in 1..NU |-> u])
Samples == Len(Inter)
Share(t) == LET n == Cardinality(Threads) q == Samples \div n r == Samples % n
            IN IF t <= r THEN q + 1 ELSE q
\* std::binary_search on the row as stored
RECURSIVE Lower(_, _, _, _)
Lower(s, x, lo, hi) == IF lo >= hi THEN lo
                       ELSE LET m == (lo + hi) \div 2 IN IF s[m] < x THEN Lower(s, x, m + 1, hi) ELSE Lower(s, x, lo, m)
Found(s, x) == LET p == Lower(s, x, 1, Len(s) + 1) IN p <= Len(s) /\ s[p] = x
Init == /\ \E given \in [Users -> Lists] :
             rows = IF Bug = "unsorted" THEN given ELSE [u \in Users |-> Sorted(given[u])]
        /\ th = [t \in Threads |-> [at |-> "draw", left |-> Share(t), u |-> 0, l |-> 0, d |-> 0]]
        /\ touchedU = {} /\ touchedI = {} /\ skipped = 0 /\ processed = 0
Draw(t) == /\ th[t].at = "draw" /\ th[t].left > 0
           /\ \E a, b \in 1..Samples :
                LET u == Inter[a][1] d == Inter[b][2] IN
                IF Found(rows[u], d)
                THEN /\ skipped' = skipped + 1 /\ processed' = processed + 1
                     /\ th' = [th EXCEPT ![t].left = @ - 1]
                ELSE /\ th' = [th EXCEPT ![t] = [at |-> "user", left |-> th[t].left, u |-> u, l |-> Inter[a][2],
                                                 d |-> IF Bug = "index" THEN 1 + (Inter[b][1] % NI) ELSE d]]
                     /\ UNCHANGED <<skipped, processed>>
           /\ UNCHANGED <<rows, touchedU, touchedI>>
StepU(t) == th[t].at = "user" /\ touchedU' = touchedU \cup {th[t].u} /\ th' = [th EXCEPT ![t].at = "items"]
            /\ UNCHANGED <<rows, touchedI, skipped, processed>>
StepI(t) == th[t].at = "items" /\ touchedI' = touchedI \cup {th[t].l, th[t].d}
            /\ th' = [th EXCEPT ![t].at = "draw", ![t].left = @ - 1] /\ processed' = processed + 1
            /\ UNCHANGED <<rows, touchedU, skipped>>
Next == \E t \in Threads : Draw(t) \/ StepU(t) \/ StepI(t)
Liked(u) == Elems(rows[u])
All == UNION {Liked(u) : u \in Users}
Frame == /\ \A u \in touchedU : Liked(u) # {} /\ Liked(u) # All
         /\ touchedI \subseteq All
         /\ skipped <= Samples
         /\ (\A t \in Threads : th[t].at = "draw" /\ th[t].left = 0) => processed = Samples
=============================================================================
