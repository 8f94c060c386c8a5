----------------------------- MODULE ItemQuery ------------------------------
(* How an item-item model answers recommend: accumulate scores over reached   *)
(* items, fetch the best Count of them (liked ones zeroed), drop liked and    *)
(* filtered ones, cut to N; with a selection fetch everything and append the  *)
(* unscored selected items.  Checked against TopN for all small inputs.       *)
EXTENDS TopN
CONSTANTS NI, Scores, MaxN, Bug
VARIABLES score, reach, liked, flt, filt, hassel, sel, N, fetched, ans, pc
Items == 0..(NI - 1)
inputs == <<score, reach, liked, flt, filt, hassel, sel, N>>
Init == /\ score \in [Items -> Scores] /\ reach \in SUBSET Items
        /\ \A j \in Items \ reach : score[j] = 0
        /\ liked \in SUBSET Items /\ flt \in BOOLEAN /\ hassel \in BOOLEAN
        /\ filt \in (IF hassel THEN {{}} ELSE SUBSET Items)
        /\ sel \in (IF hassel THEN (SUBSET Items) \ {{}} ELSE {{}})
        /\ N \in 1..MaxN
        /\ fetched = <<>> /\ ans = <<>> /\ pc = "fetch"
Count == (IF hassel THEN NI ELSE N + (IF Bug = "nofilterroom" THEN 0 ELSE Cardinality(filt)))
         + (IF flt /\ Bug # "nolikedroom" THEN Cardinality(liked) ELSE 0)
Zeroed(j) == IF flt /\ j \in liked THEN 0 ELSE score[j]
\* any order of the reached items that is sorted by score, cut to Count
Orders(S) == {s \in [1..Cardinality(S) -> S] : Distinct(s)}
Fetch == /\ pc = "fetch"
         /\ \E s \in Orders(reach) :
              /\ \A k \in 1..(Len(s) - 1) : Zeroed(s[k]) >= Zeroed(s[k + 1])
              /\ fetched' = SubSeq(s, 1, Min2(Count, Len(s)))
         /\ pc' = "mask" /\ UNCHANGED <<score, reach, liked, flt, filt, hassel, sel, N, ans>>
Mask == /\ pc = "mask"
        /\ LET a == IF flt /\ Bug # "keepliked" THEN SelectSeq(fetched, LAMBDA j : j \notin liked) ELSE fetched
               b == SelectSeq(a, LAMBDA j : j \notin filt /\ (hassel => j \in sel))
               d == IF hassel THEN b \o SetToSeq(sel \ Elems(b)) ELSE b
           IN ans' = SubSeq(d, 1, Min2(N, Len(d)))
        /\ pc' = "done" /\ UNCHANGED <<score, reach, liked, flt, filt, hassel, sel, N, fetched>>
Next == Fetch \/ Mask
Eligible == (IF hassel THEN reach \cap sel ELSE reach) \ (filt \cup (IF flt THEN liked ELSE {}))
Better(a, b) == score[a] > score[b]
Right == pc = "done" =>
   Failing(TopNClauses(ans, [k \in 1..Len(ans) |-> ans[k] \notin Eligible],
                       IF hassel THEN sel ELSE Eligible, Eligible, N, Better)) = {}
=============================================================================
