----------------------------- MODULE CacheFill ------------------------------
(* The lazily filled caches of a model (norms, gram matrices) under           *)
(* concurrent queries: a query looks at the cache, fills it in two steps      *)
(* (compute, then repair the zero norms) if it is empty, and uses it.  Every  *)
(* interleaving is explored; the cached arrays are shared by reference.       *)
EXTENDS Naturals
CONSTANTS Threads, Bug
VARIABLES cache, local, pc, used
vars == <<cache, local, pc, used>>
Init == /\ cache = "empty" /\ local = [t \in Threads |-> "empty"]
        /\ pc = [t \in Threads |-> "look"] /\ used = [t \in Threads |-> "nothing"]
Look(t) == /\ pc[t] = "look"
           /\ pc' = [pc EXCEPT ![t] = IF cache = "empty" THEN "compute" ELSE "use"]
           /\ UNCHANGED <<cache, local, used>>
Compute(t) == /\ pc[t] = "compute"
              /\ IF Bug = "publishfirst" THEN cache' = "zeros" /\ UNCHANGED local
                 ELSE local' = [local EXCEPT ![t] = "zeros"] /\ UNCHANGED cache
              /\ pc' = [pc EXCEPT ![t] = "repair"] /\ UNCHANGED used
Repair(t) == /\ pc[t] = "repair"
             /\ cache' = "good" /\ pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED <<local, used>>
Use(t) == /\ pc[t] = "use" /\ used' = [used EXCEPT ![t] = cache]
          /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<cache, local>>
Next == \E t \in Threads : Look(t) \/ Compute(t) \/ Repair(t) \/ Use(t)
OnlyFinished == \A t \in Threads : pc[t] = "end" => used[t] = "good"
=============================================================================
