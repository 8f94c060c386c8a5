---------------------------- MODULE MetricsLoop -----------------------------
(* The evaluation loop: users with test items are taken in batches, each      *)
(* recommendation list is walked position by position, sums are accumulated   *)
(* over all users.  Checked against the definitions for every list (with      *)
(* -1 padding), every test set and every batch size.                          *)
EXTENDS Base
CONSTANTS NU, NI, K, Bug
VARIABLES test, list, bsize, start, at, pos, likes, hit, miss, auc, rel, prdiv, total, aucs, padded
vars == <<test, list, bsize, start, at, pos, likes, hit, miss, auc, rel, prdiv, total, aucs, padded>>
Users == 1..NU  Items == 0..(NI - 1)
Lists == UNION {{s \in [1..n -> Items] : Distinct(s)} : n \in 0..K}
Tests == {s \in SUBSET Items : s # Items}
Init == /\ test \in [Users -> Tests] /\ list \in [Users -> Lists]
        /\ bsize \in 1..NU
        /\ start = 0 /\ at = 0 /\ pos = 0 /\ likes = {} /\ hit = 0 /\ miss = 0 /\ auc = 0
        /\ rel = 0 /\ prdiv = 0 /\ total = 0 /\ aucs = <<>> /\ padded = FALSE
Todo == SelectSeq([k \in 1..NU |-> k], LAMBDA u : test[u] # {})
User == Todo[start + at]
InBatch == Min2(bsize, Len(Todo) - start)
\* at = 0: between batches; at > 0: user `at` of the batch, pos = 0: not begun
NextBatch == /\ at = 0 /\ start < Len(Todo)
             /\ (Bug = "droptail" => start + bsize <= Len(Todo))
             /\ at' = 1 /\ pos' = 0
             /\ UNCHANGED <<test, list, bsize, start, likes, hit, miss, auc, rel, prdiv, total, aucs, padded>>
Begin == /\ at > 0 /\ pos = 0
         /\ likes' = (IF Bug = "keeplikes" THEN likes ELSE {}) \cup test[User]
         /\ hit' = (IF Bug = "keephits" THEN hit ELSE 0) /\ miss' = 0 /\ auc' = 0 /\ padded' = FALSE
         /\ prdiv' = prdiv + Min2(K, Cardinality(likes')) /\ pos' = 1
         /\ UNCHANGED <<test, list, bsize, start, at, rel, total, aucs>>
Id(p) == IF p <= Len(list[User]) THEN list[User][p] ELSE -1
Step == /\ at > 0 /\ pos \in 1..K
        /\ pos' = pos + 1
        /\ padded' = (padded \/ (Id(pos) < 0 /\ Bug # "padmiss"))
        /\ IF padded' THEN UNCHANGED <<hit, miss, auc, rel>>
           ELSE IF Id(pos) \in likes THEN hit' = hit + 1 /\ rel' = rel + 1 /\ UNCHANGED <<miss, auc>>
           ELSE miss' = miss + 1 /\ auc' = auc + 2 * hit /\ UNCHANGED <<hit, rel>>
        /\ UNCHANGED <<test, list, bsize, start, at, likes, prdiv, total, aucs>>
End == /\ at > 0 /\ pos = K + 1
       /\ aucs' = Append(aucs, <<auc + (hit + Cardinality(likes)) * (NI - Cardinality(likes) - miss),
                                 2 * Cardinality(likes) * (NI - Cardinality(likes))>>)
       /\ total' = total + 1 /\ pos' = 0
       /\ IF at = InBatch THEN at' = 0 /\ start' = start + bsize ELSE at' = at + 1 /\ UNCHANGED start
       /\ UNCHANGED <<test, list, bsize, likes, hit, miss, auc, rel, prdiv, padded>>
Next == NextBatch \/ Begin \/ Step \/ End

\* the definitions
Hits(u) == Cardinality({p \in 1..Len(list[u]) : list[u][p] \in test[u]})
\* pairs (test item, other item) ranked correctly, those outside the list counting one half: twice that
Rank(u, j) == IF \E p \in 1..Len(list[u]) : list[u][p] = j
              THEN CHOOSE p \in 1..Len(list[u]) : list[u][p] = j ELSE K + 1
Auc2(u) == LET pairs == test[u] \X (Items \ test[u])
               right == {x \in pairs : Rank(u, x[1]) < Rank(u, x[2])}
               half == {x \in pairs : Rank(u, x[1]) = Rank(u, x[2])}
           IN 2 * Cardinality(right) + Cardinality(half)
Finished == at = 0 /\ (start >= Len(Todo) \/ (Bug = "droptail" /\ start + bsize > Len(Todo)))
Definitions == Finished =>
  /\ total = Len(Todo)
  /\ rel = SumTo(Len(Todo), LAMBDA k : Hits(Todo[k]))
  /\ prdiv = SumTo(Len(Todo), LAMBDA k : Min2(K, Cardinality(test[Todo[k]])))
  /\ \A k \in 1..Len(aucs) : aucs[k] = <<Auc2(Todo[k]), 2 * Cardinality(test[Todo[k]]) * (NI - Cardinality(test[Todo[k]]))>>
=============================================================================
