------------------------------- MODULE Facade -------------------------------
(* A call of a constructor binds its arguments to parameters, and a factory   *)
(* hands every parameter on to the class it makes.  Values are tokens         *)
(* <<parameter, "given" or "default">>.  Every call shape is printed (Emit)   *)
(* and made on the real constructors.                                         *)
EXTENDS FacadeParams, Json, FiniteSetsExt
CONSTANTS MaxNamed, Bug, Emit
VARIABLES entry, k, named, made, pc
vars == <<entry, k, named, made, pc>>
Rest == {Params(entry)[j] : j \in (k + 1)..Len(Params(entry))}
Init == /\ entry \in Entries /\ pc = "call" /\ made = <<>>
        /\ k \in 0..Positional(entry)
        /\ named \in (UNION {kSubset(m, Rest) : m \in 0..Min2(MaxNamed, Cardinality(Rest))}) \cup {Rest}
Bound(p) == <<p, IF p \in Given(entry, k, named) THEN "given" ELSE "default">>
Own == Params(Inner(entry))
Forward ==
  /\ pc = "call" /\ pc' = "made"
  /\ made' = [j \in 1..Len(Own) |->
       CASE Bug = "byposition" -> Bound(Params(entry)[j])
         [] Bug = "drop" /\ j = Len(Own) -> <<Own[j], "default">>
         [] Bug = "swap" /\ j = 2 -> Bound(Own[IF Len(Own) > 2 THEN 3 ELSE 1])
         [] OTHER -> Bound(Own[j])]
  /\ UNCHANGED <<entry, k, named>>
Next == Forward
Right == pc = "made" => \A j \in 1..Len(Own) : made[j] = Bound(Own[j])
Out == IF Emit /\ pc = "call"
       THEN PrintT(<<"CASE", ToJson([entry |-> entry, params |-> Params(entry), k |-> k, named |-> SetToSeq(named)])>>) ELSE TRUE
=============================================================================
