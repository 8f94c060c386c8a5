------------------------------- MODULE Inputs -------------------------------
(* The life of a model that is also called with invalid arguments.  content:  *)
(* version of what the model has learned; touched: whether a call read or     *)
(* wrote beyond the model.  A call checks its arguments before it changes     *)
(* anything.  Histories of valid and invalid calls are printed (Emit) and     *)
(* replayed on the real models; whether each call has to be rejected is       *)
(* decided from its arguments by Verdict.                                     *)
EXTENDS Base, Json
CONSTANTS Depth, Bug, Emit
VARIABLES content, clock, oob, hist
vars == <<content, clock, oob, hist>>
Queries == {"rec", "simi", "simu", "recu", "reci"}
Updates == {"pfu", "pfi", "refit"}
Faults == [rec |-> {"none", "csr", "rows", "both", "sel", "liked", "id", "selliked", "filt"},
           simi |-> {"none", "both", "sel", "id", "filt"}, simu |-> {"none", "both", "sel", "id", "filt"},
           recu |-> {"none", "rows", "liked"}, reci |-> {"none", "rows", "liked"},
           pfu |-> {"none", "rows", "liked", "neg"}, pfi |-> {"none", "rows", "liked", "neg"},
           refit |-> {"none", "users", "items", "both"}]
Unsafe == {"rows", "sel", "liked", "id", "filt", "neg", "users", "items"}
Init == content = 1 /\ clock = 1 /\ oob = FALSE /\ hist = <<>>
Call(op, f) ==
  /\ hist' = Append(hist, <<op, f>>)
  /\ clock' = clock + 1
  /\ LET commits == op \in Updates
         rejected == f # "none" /\ ~(Bug = "unchecked" /\ f \in Unsafe)
     IN /\ content' = IF commits /\ (~rejected \/ Bug = "commitfirst") THEN clock + 1
                      ELSE IF f # "none" /\ ~commits /\ Bug = "clobber" THEN clock + 1 ELSE content
        /\ oob' = (oob \/ (f \in Unsafe /\ ~rejected))
Next == Len(hist) < Depth /\ \E op \in Queries \cup Updates : \E f \in Faults[op] : Call(op, f)
Spec == Init /\ [][Next]_vars
RejectedChangesNothing ==
  [][hist'[Len(hist')][2] # "none" => content' = content]_vars
QueryChangesNothing == [][hist'[Len(hist')][1] \in Queries => content' = content]_vars
InBounds == ~oob
Out == IF Emit /\ Len(hist) = Depth /\ \E k \in 1..Len(hist) : hist[k][2] # "none"
       THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
