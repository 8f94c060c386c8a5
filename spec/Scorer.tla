------------------------------- MODULE Scorer -------------------------------
(* The scratch state of the item-item scorer: the sparse accumulator of SMMP  *)
(* (sums, linked list of touched columns) shared by all queries of a model,   *)
(* and concurrent queries on it.  Query t has the liked items Likes[t]; liked *)
(* item i adds Sim[i][j] to every neighbour j.  A query takes the lock, adds, *)
(* (zeroes its own likes,) drains the list, releases the lock.  Every         *)
(* interleaving of the elementary steps is explored.                          *)
EXTENDS Base
CONSTANTS Items, NoItem, EndOfList, Queries, Likes, Sim, RemoveOwn, Rounds, Bug
VARIABLES sums, next, head, len, lock, pc, res, round
vars == <<sums, next, head, len, lock, pc, res, round>>
\* lists are over the natural numbers Items; NoItem (-1) = not in the list, EndOfList (-2)
NoOne == "none"

\* everything query t has to add, in order
Pairs(t) == {<<i, j>> \in Likes[t] \X Items : Sim[i][j] # 0}
Adds(t) == SetToSeq(Pairs(t))
Expected(t) == {<<j, IF RemoveOwn /\ j \in Likes[t] THEN 0
                     ELSE SumTo(Len(Adds(t)), LAMBDA k : IF Adds(t)[k][2] = j THEN Sim[Adds(t)[k][1]][j] ELSE 0)>>
                : j \in {p[2] : p \in Pairs(t)}}

Init == /\ sums = [j \in Items |-> 0] /\ next = [j \in Items |-> NoItem]
        /\ head = EndOfList /\ len = 0 /\ lock = NoOne
        /\ pc = [t \in Queries |-> [at |-> "start", k |-> 0]]
        /\ res = [t \in Queries |-> {}] /\ round = [t \in Queries |-> 1]

Locked == Bug # "nolock"
Start(t) == /\ pc[t].at = "start"
            /\ Locked => lock = NoOne
            /\ lock' = IF Locked THEN t ELSE lock
            /\ pc' = [pc EXCEPT ![t] = [at |-> "add", k |-> 1]]
            /\ res' = [res EXCEPT ![t] = {}]
            /\ UNCHANGED <<sums, next, head, len, round>>
Add(t) == /\ pc[t].at = "add" /\ pc[t].k <= Len(Adds(t))
          /\ LET p == Adds(t)[pc[t].k] j == p[2] IN
             /\ sums' = [sums EXCEPT ![j] = @ + Sim[p[1]][j]]
             /\ IF next[j] = NoItem
                THEN next' = [next EXCEPT ![j] = head] /\ head' = j /\ len' = len + 1
                ELSE UNCHANGED <<next, head, len>>
          /\ pc' = [pc EXCEPT ![t].k = @ + 1]
          /\ UNCHANGED <<lock, res, round>>
Own(t) == /\ pc[t].at = "add" /\ pc[t].k > Len(Adds(t))
          /\ sums' = [j \in Items |-> IF RemoveOwn /\ j \in Likes[t]
                                      THEN (IF Bug = "minusone" THEN -1 ELSE 0) ELSE sums[j]]
          /\ pc' = [pc EXCEPT ![t] = [at |-> "drain", k |-> len]]
          \* releasing the lock before the list is drained
          /\ lock' = IF Bug = "earlyrelease" THEN NoOne ELSE lock
          /\ UNCHANGED <<next, head, len, res, round>>
Drain(t) == /\ pc[t].at = "drain" /\ pc[t].k > 0 /\ head \in Items
            /\ res' = [res EXCEPT ![t] = @ \cup {<<head, sums[head]>>}]
            /\ head' = next[head]
            /\ sums' = [sums EXCEPT ![head] = IF Bug = "noclear" THEN @ ELSE 0]
            /\ next' = [next EXCEPT ![head] = NoItem]
            /\ pc' = [pc EXCEPT ![t].k = @ - 1]
            /\ UNCHANGED <<len, lock, round>>
Finish(t) == /\ pc[t].at = "drain" /\ (pc[t].k = 0 \/ head \notin Items)
             /\ len' = 0 /\ head' = EndOfList
             /\ lock' = IF Locked /\ lock = t THEN NoOne ELSE lock
             /\ pc' = [pc EXCEPT ![t] = [at |-> "done", k |-> 0]]
             /\ UNCHANGED <<sums, next, res, round>>
Again(t) == /\ pc[t].at = "done" /\ round[t] < Rounds
            /\ round' = [round EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = [at |-> "start", k |-> 0]]
            /\ UNCHANGED <<sums, next, head, len, lock, res>>
Next == \E t \in Queries : Start(t) \/ Add(t) \/ Own(t) \/ Drain(t) \/ Finish(t) \/ Again(t)
Spec == Init /\ [][Next]_vars

\* each query gets the answer it gets alone
OwnAnswer == \A t \in Queries : pc[t].at = "done" => res[t] = Expected(t)
\* between queries the accumulator is clean, so that no query sees an earlier one
CleanWhenIdle == (\A t \in Queries : pc[t].at \in {"start", "done"})
                 => /\ \A j \in Items : sums[j] = 0 /\ next[j] = NoItem
                    /\ head = EndOfList /\ len = 0
=============================================================================
