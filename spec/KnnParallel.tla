---------------------------- MODULE KnnParallel -----------------------------
(* The parallel all-pairs nearest neighbour computation: items are handed out *)
(* dynamically to the threads; a thread accumulates the weighted overlaps of  *)
(* its item with every co-occurring item in its own accumulator, collects the *)
(* K best in its own result list and writes them in the slots of the item.    *)
(* Every schedule is explored.  The stored neighbours have to be the top K of *)
(* the item-item product.                                                     *)
EXTENDS Base
CONSTANTS Threads, NI, NU, K, Values, Bug
VARIABLES D, todo, th, acc, best, out
vars == <<D, todo, th, acc, best, out>>
Items == 1..NI  Users == 1..NU
Shared == Bug = "sharedacc"
A(t) == IF Shared THEN CHOOSE x \in Threads : TRUE ELSE t
Overlap(i, j) == SumTo(NU, LAMBDA u : D[u][i] * D[u][j])
Cooc(i) == {j \in Items : \E u \in Users : D[u][i] # 0 /\ D[u][j] # 0}

Idle == [at |-> "idle", i |-> 0, u |-> 0]
Init == /\ D \in [Users -> [Items -> Values]]
        /\ todo = 1 /\ th = [t \in Threads |-> Idle]
        /\ acc = [t \in Threads |-> {}]          \* {<<j, sum>>}
        /\ best = [t \in Threads |-> {}]
        /\ out = [i \in Items |-> {}]
Take(t) == /\ th[t].at = "idle" /\ todo <= NI
           /\ th' = [th EXCEPT ![t] = [at |-> "add", i |-> todo, u |-> 1]]
           /\ todo' = todo + 1 /\ UNCHANGED <<D, acc, best, out>>
Val(s, j) == IF \E p \in s : p[1] = j THEN (CHOOSE p \in s : p[1] = j)[2] ELSE 0
AddUser(t) ==
  /\ th[t].at = "add" /\ th[t].u <= NU
  /\ LET i == th[t].i u == th[t].u s == acc[A(t)]
         hit == IF D[u][i] = 0 THEN {} ELSE {j \in Items : D[u][j] # 0}
     IN acc' = [acc EXCEPT ![A(t)] = {p \in s : p[1] \notin hit}
                   \cup {<<j, Val(s, j) + D[u][i] * D[u][j]>> : j \in hit}]
  /\ th' = [th EXCEPT ![t].u = @ + 1]
  /\ UNCHANGED <<D, todo, best, out>>
\* the K best of the accumulator: any choice among ties
Collect(t) ==
  /\ th[t].at = "add" /\ th[t].u > NU
  /\ LET pool == acc[A(t)] \cup (IF Bug = "keepresults" THEN best[t] ELSE {}) IN
     \E S \in SUBSET pool :
       /\ Cardinality(S) = Min2(K, Cardinality(pool))
       /\ \A a \in S, b \in pool \ S : a[2] >= b[2]
       /\ best' = [best EXCEPT ![t] = S]
  /\ acc' = [acc EXCEPT ![A(t)] = IF Bug = "noclear" THEN @ ELSE {}]
  /\ th' = [th EXCEPT ![t].at = "write"]
  /\ UNCHANGED <<D, todo, out>>
Write(t) == /\ th[t].at = "write"
            /\ out' = [out EXCEPT ![th[t].i] = best[t]]
            /\ th' = [th EXCEPT ![t] = Idle]
            /\ UNCHANGED <<D, todo, acc, best>>
Next == \E t \in Threads : Take(t) \/ AddUser(t) \/ Collect(t) \/ Write(t)
Done == todo > NI /\ \A t \in Threads : th[t].at = "idle"
TopK == Done => \A i \in Items :
  LET ids == {p[1] : p \in out[i]} IN
  /\ Cardinality(out[i]) = Min2(K, Cardinality(Cooc(i))) /\ Cardinality(ids) = Cardinality(out[i])
  /\ ids \subseteq Cooc(i)
  /\ \A p \in out[i] : p[2] = Overlap(i, p[1])
  /\ \A p \in out[i] : \A j \in Cooc(i) \ ids : Overlap(i, j) <= p[2]
=============================================================================
