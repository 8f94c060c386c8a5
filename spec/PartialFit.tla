----------------------------- MODULE PartialFit -----------------------------
(* Incremental updates of a model's user and item factors.  A row is 0 (the   *)
(* zero vector) or the number of the update that wrote it.  rows is what the  *)
(* implementation stores (grown on demand, updated in place); want is the     *)
(* meaning: the last update of an id wins, ids never updated keep their       *)
(* value, ids in between are zero.                                            *)
EXTENDS Base, Json
CONSTANTS N0, Depth, Bug, Emit
VARIABLES rows, want, clock, hist
vars == <<rows, want, clock, hist>>
Sides == {"u", "i"}
\* which ids an update names, relative to the present number of rows n
Kinds == {"one", "two", "next", "gap", "mixed", "all"}
IdsOf(kind, n) == CASE kind = "one" -> <<0>>
                    [] kind = "two" -> <<n - 1, 1>>
                    [] kind = "next" -> <<n>>
                    [] kind = "gap" -> <<n + 2>>
                    [] kind = "mixed" -> <<n + 1, 0, n - 1>>
                    [] kind = "all" -> [k \in 1..n |-> n - k]
MaxOf(s) == FoldLeft(LAMBDA a, x : Max2(a, x), 0, s)

Init == /\ rows = [s \in Sides |-> [k \in 1..N0 |-> -k]]
        /\ want = [s \in Sides |-> [k \in 0..(N0 - 1) |-> -(k + 1)]]
        /\ clock = 1 /\ hist = <<>>
Update(s, kind) ==
  LET n == Len(rows[s]) ids == IdsOf(kind, n)
      top == MaxOf(ids)
      size == IF Bug = "growone" THEN (IF top >= n THEN n + 1 ELSE n)
              ELSE IF Bug = "alwaysgrow" THEN Max2(n, top + 2) ELSE Max2(n, top + 1)
      grown == [k \in 1..size |-> IF k <= n THEN rows[s][k] ELSE 0]
      hit(k) == \E j \in 1..Len(ids) : ids[j] = k - 1
      pos(k) == CHOOSE j \in 1..Len(ids) : ids[j] = k - 1
      sorted == SortSeq(ids, LAMBDA a, b : a < b)
      \* the new value of a row is <<the update, the position of its data>>
      val(k) == 100 * clock + (IF Bug = "sorted" THEN CHOOSE j \in 1..Len(ids) : sorted[j] = k - 1 ELSE pos(k))
  IN /\ rows' = [rows EXCEPT ![s] = [k \in 1..size |-> IF hit(k) THEN val(k) ELSE grown[k]]]
     /\ want' = [want EXCEPT ![s] = [k \in 0..(Max2(n, top + 1) - 1) |->
                   IF hit(k + 1) THEN 100 * clock + pos(k + 1)
                   ELSE IF k \in DOMAIN want[s] THEN want[s][k] ELSE 0]]
     /\ clock' = clock + 1
     /\ hist' = Append(hist, <<s, kind>>)
Next == /\ Len(hist) < Depth
        /\ \E s \in Sides, k \in Kinds : Update(s, k)
        /\ IF Emit /\ Len(hist') = Depth THEN PrintT(<<"CASE", ToJson([hist |-> hist'])>>) ELSE TRUE
StoredIsMeant == \A s \in Sides : /\ Len(rows[s]) = Cardinality(DOMAIN want[s])
                                  /\ \A k \in DOMAIN want[s] : rows[s][k + 1] = want[s][k]
=============================================================================
