------------------------------ MODULE SaveLoad ------------------------------
(* A model A and its copy B made by save/load or pickling.  A model has       *)
(* hyper-parameters and refers to its factors in a heap; training changes the *)
(* factors in place, as a function of the old ones and the hyper-parameters.  *)
(* Behaviours are printed (Emit) and replayed on the real models.             *)
EXTENDS Base, Json
CONSTANTS Ways, Trains, Depth, Bug, Emit
VARIABLES hyp, ref, heap, insync, hist
vars == <<hyp, ref, heap, insync, hist>>
Default == "default"  Chosen == "chosen"
M == {"A", "B"}
Init == /\ hyp = [A |-> Chosen, B |-> Default]
        /\ ref = [A |-> 1, B |-> 2] /\ heap = <<"none", "none">>
        /\ insync = FALSE /\ hist = <<>>
View(m) == <<hyp[m], heap[ref[m]]>>
Log(x) == hist' = Append(hist, x)
Copied == \E k \in 1..Len(hist) : hist[k][1] = "copy"
\* one round trip: B becomes what was written from A
Copy(w) ==
  /\ Log(<<"copy", w>>)
  /\ hyp' = [hyp EXCEPT !["B"] = IF Bug = "lostparam" THEN Default ELSE hyp["A"]]
  /\ IF Bug = "alias" THEN ref' = [ref EXCEPT !["B"] = ref["A"]] /\ UNCHANGED heap
     ELSE /\ heap' = Append(heap, IF Bug = "lostfactors" THEN "none" ELSE heap[ref["A"]])
          /\ ref' = [ref EXCEPT !["B"] = Len(heap) + 1]
  /\ insync' = TRUE
Trained(m, t) == ToString(<<t, heap[ref[m]], hyp[m]>>)
Train(m, t) == /\ m = "B" => Copied
               /\ t # "fit" => heap[ref[m]] # "none"
               /\ Log(<<m, t>>)
               /\ heap' = [heap EXCEPT ![ref[m]] = Trained(m, t)]
               /\ insync' = FALSE /\ UNCHANGED <<hyp, ref>>
Both(t) == /\ Copied /\ insync
           /\ t # "fit" => heap[ref["A"]] # "none"
           /\ Log(<<"both", t>>)
           /\ heap' = [a \in 1..Len(heap) |-> CASE a = ref["A"] -> Trained("A", t)
                                                [] a = ref["B"] -> Trained("B", t)
                                                [] OTHER -> heap[a]]
           /\ UNCHANGED <<hyp, ref, insync>>
\* the copy takes the place of the original: copies of copies
Swap == /\ Copied /\ insync /\ hist[Len(hist)][1] = "copy" /\ Log(<<"swap", "">>)
        /\ hyp' = [A |-> hyp["B"], B |-> hyp["A"]] /\ ref' = [A |-> ref["B"], B |-> ref["A"]]
        /\ UNCHANGED <<heap, insync>>
Next == /\ Len(hist) < Depth
        /\ \/ \E w \in Ways : Copy(w)
           \/ \E t \in Trains : Train("A", t) \/ Train("B", t) \/ Both(t)
           \/ Swap
Out == IF Emit /\ Copied /\ Len(hist) = Depth THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
Equivalent == insync => View("A") = View("B")
Independent == [][/\ hist'[Len(hist')][1] = "A" => View("B")' = View("B")
                  /\ hist'[Len(hist')][1] = "B" => View("A")' = View("A")]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
