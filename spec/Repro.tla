------------------------------- MODULE Repro --------------------------------
(* Where randomness may come from.  A training or split draws only from a     *)
(* generator made from its random_state; the process has global generators    *)
(* (g: their position) that the caller may move at any time, and the library  *)
(* may have state of its own (h).  Results are what the draws depended on.    *)
(* Histories are printed (Emit) and replayed on the real code.                *)
EXTENDS Base, Json
CONSTANTS Seeds, Depth, Bug, Emit
VARIABLES g, h, results, hist
vars == <<g, h, results, hist>>
Init == g = 0 /\ h = 0 /\ results = {} /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Draw(op, s) == <<IF Bug = "ignoreseed" THEN 0 ELSE s,
                 IF Bug = "global" THEN g ELSE 0,
                 IF Bug = "shared" THEN h ELSE 0>>
Random(op, s) ==
  /\ results' = results \cup {<<op, s, Draw(op, s)>>}
  /\ g' = IF Bug \in {"advance", "global"} THEN g + 1 ELSE IF Bug = "reseed" THEN s ELSE g
  /\ h' = h + 1 /\ Log(<<op, s>>)
Perturb(s) == g' = 10 * s /\ Log(<<"perturb", s>>) /\ UNCHANGED <<h, results>>
Query == Log(<<"query", 0>>) /\ h' = h + 1 /\ UNCHANGED <<g, results>>
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Seeds : Random("train", s) \/ Random("split", s) \/ Perturb(s)
           \/ Query
Reproducible == \A a, b \in results : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
SeedsMatter == \A a, b \in results : (a[1] = b[1] /\ a[2] # b[2]) => a[3] # b[3]
GlobalUntouched == [][hist'[Len(hist')][1] # "perturb" => g' = g]_vars
Trains == \E k \in 1..Len(hist) : hist[k][1] = "train"
Out == IF Emit /\ Len(hist) = Depth /\ Trains THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
