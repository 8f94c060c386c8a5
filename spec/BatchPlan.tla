----------------------------- MODULE BatchPlan ------------------------------
(* How a batch query is executed: the query rows are cut into blocks of       *)
(* BlockSize, the blocks are claimed by Threads in any order, each block      *)
(* computes its rows' answers (with the rows' own filters) and writes them at *)
(* the rows' own place of the shared output.  Every interleaving of claims    *)
(* and writes is explored.  The answer of row r is represented by <<r, r>>:   *)
(* (the query it was computed from, the filter row that was applied).         *)
EXTENDS Base
CONSTANTS MaxRows, BlockSize, Threads, Bug
VARIABLES rows, out, writes, todo, busy
vars == <<rows, out, writes, todo, busy>>

NB == (rows \div BlockSize) + (IF rows % BlockSize # 0 /\ Bug # "droptail" THEN 1 ELSE 0)
Start(b) == b * BlockSize
End(b) == Min2(Start(b) + BlockSize, rows)
NoJob == [b |-> -1, r |-> -1]

Init == /\ rows \in 0..MaxRows
        /\ out = [r \in 0..(rows - 1) |-> <<>>]
        /\ writes = [r \in 0..(rows - 1) |-> 0]
        /\ todo = 0..(NB - 1)
        /\ busy = [t \in Threads |-> NoJob]
Claim(t) == /\ busy[t] = NoJob /\ todo # {}
            /\ \E b \in todo : /\ todo' = todo \ {b}
                               /\ busy' = [busy EXCEPT ![t] = [b |-> b, r |-> Start(b)]]
            /\ UNCHANGED <<rows, out, writes>>
Write(t) == /\ busy[t] # NoJob
            /\ LET b == busy[t].b r == busy[t].r
                   frow == IF Bug = "localfilter" THEN r - Start(b) ELSE r
               IN /\ out' = [out EXCEPT ![r] = <<r, frow>>]
                  /\ writes' = [writes EXCEPT ![r] = @ + 1]
                  /\ busy' = [busy EXCEPT ![t] = IF r + 1 < End(b) THEN [b |-> b, r |-> r + 1] ELSE NoJob]
            /\ UNCHANGED <<rows, todo>>
Next == \E t \in Threads : Claim(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ \A t \in Threads : busy[t] = NoJob
RowsOwnAnswer == Done => \A r \in 0..(rows - 1) : out[r] = <<r, r>>
WrittenOnce == \A r \in 0..(rows - 1) : writes[r] <= 1
=============================================================================
