---------------------------- MODULE AlsSchedule -----------------------------
(* The schedule of an ALS fit: in every iteration first all user rows are     *)
(* solved against the item factors, then all item rows against the new user   *)
(* factors; the rows of a phase are claimed by threads in any order.  A row's *)
(* value is the version of everything it was computed from, so that the       *)
(* result is the same for every interleaving iff the versions are.            *)
EXTENDS Base
CONSTANTS Users, Items, Iters, Threads, Bug
VARIABLES it, phase, todo, busy, xu, yi, snap, cuts
vars == <<it, phase, todo, busy, xu, yi, snap, cuts>>
\* versions: items start at 0; users computed in iteration k read items of version k-1
Init == /\ it = 1 /\ phase = (IF Bug = "itemsfirst" THEN "items" ELSE "users")
        /\ todo = (IF Bug = "itemsfirst" THEN Items ELSE Users)
        /\ busy = [t \in Threads |-> "idle"]
        /\ xu = [u \in Users |-> [ver |-> 0, read |-> {0}]]
        /\ yi = [v \in Items |-> [ver |-> 0, read |-> {0}]]
        /\ snap = <<>> /\ cuts = 0
Claim(t) == /\ busy[t] = "idle" /\ \E r \in todo : todo' = todo \ {r} /\ busy' = [busy EXCEPT ![t] = r]
            /\ UNCHANGED <<it, phase, xu, yi, snap, cuts>>
\* one row: read the whole other side, write the own row
Solve(t) == /\ busy[t] # "idle"
            /\ LET r == busy[t] IN
               IF r \in Users
               THEN xu' = [xu EXCEPT ![r] = [ver |-> it, read |-> {yi[v].ver : v \in Items}]] /\ UNCHANGED yi
               ELSE yi' = [yi EXCEPT ![r] = [ver |-> it, read |-> {xu[u].ver : u \in Users}]] /\ UNCHANGED xu
            /\ busy' = [busy EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<it, phase, todo, snap, cuts>>
Barrier == todo = {} /\ (Bug = "nobarrier" \/ \A t \in Threads : busy[t] = "idle")
NextPhase == /\ Barrier /\ it <= Iters
             /\ LET first == IF Bug = "itemsfirst" THEN "items" ELSE "users"
                    second == IF Bug = "itemsfirst" THEN "users" ELSE "items" IN
                IF phase = first
                THEN phase' = second /\ it' = it /\ todo' = (IF second = "items" THEN Items ELSE Users)
                     /\ UNCHANGED snap
                ELSE /\ phase' = first /\ it' = it + 1
                     /\ todo' = IF it + 1 > Iters THEN {} ELSE IF first = "users" THEN Users ELSE Items
                     /\ snap' = Append(snap, <<xu, yi>>)
             /\ UNCHANGED <<busy, xu, yi, cuts>>
\* a fit may stop after any iteration and be continued by another fit: nothing is lost
Refit == /\ cuts < 1 /\ phase = "users" /\ it > 1 /\ todo = Users /\ \A t \in Threads : busy[t] = "idle"
         /\ cuts' = cuts + 1 /\ UNCHANGED <<it, phase, todo, busy, xu, yi, snap>>
Next == NextPhase \/ Refit \/ \E t \in Threads : Claim(t) \/ Solve(t)
Expected(k) == << [u \in Users |-> [ver |-> k, read |-> {k - 1}]],
                  [v \in Items |-> [ver |-> k, read |-> {k}]] >>
Alternates == \A k \in 1..Len(snap) : snap[k] = Expected(k)
=============================================================================
