------------------------------ MODULE AnnQuery ------------------------------
(* An ANN wrapper around a model: fit builds an index of the item factors;    *)
(* a query fetches the best N + |filter list| + |liked| entries of the index  *)
(* (or all, if fewer), drops filtered ones and keeps N.  The factors change   *)
(* only by refitting.  The answer has to be the top N of the current factors. *)
(* Filter lists may contain duplicates and liked items.                       *)
EXTENDS TopN
CONSTANTS NI, Scores, MaxN, MaxFilt, Bug
VARIABLES score, index, liked, flt, filt, N, ans, pc
vars == <<score, index, liked, flt, filt, N, ans, pc>>
Items == 0..(NI - 1)
Lists == UNION {[1..k -> Items] : k \in 0..MaxFilt}
NoQuery == liked = {} /\ flt = FALSE /\ filt = <<>> /\ N = 1
Init == /\ score \in [Items -> Scores] /\ index = score
        /\ NoQuery /\ ans = <<>> /\ pc = "ready"
Refit == /\ pc = "ready" /\ score' \in [Items -> Scores]
         /\ index' = IF Bug = "stale" THEN index ELSE score'
         /\ pc' = "refitted" /\ UNCHANGED <<liked, flt, filt, N, ans>>
Count == N + (IF Bug = "nofilterroom" THEN 0 ELSE IF Bug = "setroom" THEN Cardinality(Elems(filt) \ liked) ELSE Len(filt))
           + (IF flt /\ Bug # "nolikedroom" THEN Cardinality(liked) ELSE 0)
Orders == {s \in [1..NI -> Items] : Distinct(s)}
Hidden == Elems(filt) \cup (IF flt THEN liked ELSE {})
Ask == /\ pc \in {"ready", "refitted"}
       /\ liked' \in SUBSET Items /\ flt' \in BOOLEAN /\ filt' \in Lists /\ N' \in 1..MaxN
       /\ pc' = "asked" /\ UNCHANGED <<score, index, ans>>
Answer == /\ pc = "asked"
          /\ \E s \in Orders :
               /\ \A k \in 1..(NI - 1) : index[s[k]] >= index[s[k + 1]]
               /\ LET got == SubSeq(s, 1, Min2(Count, NI))
                      kept == SelectSeq(got, LAMBDA j : j \notin (IF Bug = "keepliked" THEN Elems(filt) ELSE Hidden))
                  IN ans' = IF Bug = "nocut" THEN kept ELSE SubSeq(kept, 1, Min2(N, Len(kept)))
          /\ pc' = "done" /\ UNCHANGED <<score, index, liked, flt, filt, N>>
Next == Refit \/ Ask \/ Answer
Better(a, b) == score[a] > score[b]
Right == pc = "done" => Failing(TopNClauses(ans, [k \in 1..Len(ans) |-> FALSE], Items \ Hidden, Items \ Hidden, N, Better)) = {}
=============================================================================
