------------------------------ MODULE GenQuery ------------------------------
(* Bounded-exhaustive inputs for the query checks: every score pattern, every *)
(* liked / filtered / selected set and every N on catalogues of up to MaxN    *)
(* items, printed as JSON for the driver.                                     *)
EXTENDS Base, Json
CONSTANTS MaxN, MaxScore, WithFilters
VARIABLES n, score, liked, filt, hassel, sel, N, flt
Ids == 0..(n - 1)
Init == /\ n \in 1..MaxN
        /\ score \in [1..n -> 0..MaxScore]
        /\ N \in 1..(n + 1)
        /\ IF WithFilters
           THEN /\ liked \in SUBSET Ids
                /\ flt \in {TRUE, FALSE}
                /\ (~flt => liked \in {{}, Ids})
                /\ hassel \in {TRUE, FALSE}
                /\ IF hassel THEN sel \in (SUBSET Ids) \ {{}} /\ filt = {}
                   ELSE sel = {} /\ filt \in SUBSET Ids
           ELSE liked = {} /\ flt = FALSE /\ hassel = FALSE /\ sel = {} /\ filt = {}
        /\ PrintT(<<"CASE", ToJson([n |-> n, score |-> score, liked |-> SetToSeq(liked),
                                    filt |-> SetToSeq(filt), hassel |-> hassel,
                                    sel |-> SetToSeq(sel), N |-> N, flt |-> flt])>>)
Next == FALSE /\ UNCHANGED <<n, score, liked, filt, hassel, sel, N, flt>>
=============================================================================
