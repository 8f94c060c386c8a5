----------------------------- MODULE TakeTails ------------------------------
(* How leave_k_out_split picks K interactions per user: sort the interactions *)
(* by user, shuffle within each user, compute from the cumulative counts the  *)
(* positions of the last K of every user.  arr: user of each interaction of   *)
(* the candidate users (ids may have gaps).                                   *)
EXTENDS Base
CONSTANTS MaxUser, MaxLen, K, Bug
VARIABLES arr, idx, shuf, tails, pc
vars == <<arr, idx, shuf, tails, pc>>
Users == 0..MaxUser
CountOf(u) == Cardinality({k \in 1..Len(arr) : arr[k] = u})
Perms(n) == {p \in [1..n -> 1..n] : Distinct(p)}
Init == /\ arr \in UNION {[1..n -> Users] : n \in 0..MaxLen}
        /\ \A u \in Users : CountOf(u) = 0 \/ CountOf(u) > K + 1
        /\ idx = <<>> /\ shuf = <<>> /\ tails = {} /\ pc = "sort"
Sort == /\ pc = "sort"
        /\ idx' = SortSeq([k \in 1..Len(arr) |-> k], LAMBDA a, b : arr[a] < arr[b] \/ (arr[a] = arr[b] /\ a < b))
        /\ pc' = "shuffle" /\ UNCHANGED <<arr, shuf, tails>>
\* argsort of (user + random in [0, 1)): any order inside a user
Shuffle == /\ pc = "shuffle"
           /\ \E p \in Perms(Len(arr)) :
                /\ IF Bug = "shuffleall" THEN TRUE
                   ELSE \A k \in 1..Len(arr) : arr[idx[p[k]]] = arr[idx[k]]
                /\ shuf' = p
           /\ pc' = "take" /\ UNCHANGED <<arr, idx, tails>>
Present == {u \in Users : CountOf(u) > 0}
\* the groups whose ends are computed
Groups == IF Bug = "gaps" THEN (IF Present = {} THEN {} ELSE 0..(CHOOSE m \in Present : \A x \in Present : x <= m))
          ELSE Present
End(u) == SumTo(u + 1, LAMBDA k : CountOf(k - 1))
Ranges == [g \in Groups |-> (End(g) - K + 1)..End(g)]
Take == /\ pc = "take"
        /\ tails' = UNION {{<<g, k, IF k \in 1..Len(arr) THEN idx[shuf[k]] ELSE 0>> : k \in Ranges[g]} : g \in Groups}
        /\ pc' = "done" /\ UNCHANGED <<arr, idx, shuf>>
Next == Sort \/ Shuffle \/ Take
Exact == pc = "done" =>
  /\ Cardinality(tails) = K * Cardinality(Present)                    \* nothing twice
  /\ Cardinality({t[3] : t \in tails}) = Cardinality(tails)
  /\ \A u \in Present : Cardinality({t \in tails : t[3] # 0 /\ arr[t[3]] = u}) = K
=============================================================================
