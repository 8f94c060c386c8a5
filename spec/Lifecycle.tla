----------------------------- MODULE Lifecycle ------------------------------
(* The life of a matrix-factorization model.  uv / iv: version of the user /  *)
(* item factors; un, inn: version the cached user / item norms were computed  *)
(* from (0: not cached); xtx, yty: the same for the cached gram matrices.     *)
(* Queries fill and use the caches; fit, partial fits and (un)pickling change *)
(* the factors and have to drop what was derived from the old ones.           *)
(* Bug switches describe the ways of getting this wrong.                      *)
EXTENDS Base, Json
CONSTANTS Kind, Depth, Bug, Emit
VARIABLES uv, iv, un, inn, xtx, yty, clock, answer, hist
vars == <<uv, iv, un, inn, xtx, yty, clock, answer, hist>>

Als == Kind = "als"
Ops == {"fit", "fitcb", "qsi", "qsu", "save", "pick"}
       \cup (IF Als THEN {"pfu", "pfun", "pfi", "pfin", "qru", "qri"} ELSE {})

Init == /\ uv = 1 /\ iv = 1 /\ un = 0 /\ inn = 0 /\ xtx = 0 /\ yty = 0
        /\ clock = 1 /\ answer = <<>> /\ hist = <<>>

Fill(cache, version) == IF cache = 0 THEN version ELSE cache
\* an answer is the set of (what it was computed from, what it should have been computed from)
Fit(cb) ==
  /\ clock' = clock + 2
  /\ uv' = clock + 2 /\ iv' = clock + 2
  \* with a callback that queries the model after the first of two iterations, the caches are
  \* filled from the intermediate factors (version clock + 1) and have to be dropped again
  /\ LET mid == clock + 1
         after(c) == IF cb /\ Bug = "callback" THEN mid
                     ELSE IF Bug = "refit" THEN c ELSE 0
     IN un' = after(un) /\ inn' = after(inn) /\ xtx' = after(xtx) /\ yty' = after(yty)
  /\ answer' = <<>>
PfUsers == /\ clock' = clock + 1 /\ uv' = clock + 1 /\ iv' = iv
           /\ un' = IF Bug = "pfu_norms" THEN un ELSE 0
           /\ xtx' = IF Bug = "pfu_gram" THEN xtx ELSE 0
           \* recalculating the users' factors needs (and caches) the item gram matrix
           /\ yty' = Fill(yty, iv) /\ inn' = inn
           /\ answer' = << <<yty', iv>> >>
PfItems == /\ clock' = clock + 1 /\ iv' = clock + 1 /\ uv' = uv
           /\ inn' = IF Bug = "pfi_norms" THEN inn ELSE 0
           /\ yty' = IF Bug = "pfi_gram" THEN yty ELSE 0
           /\ xtx' = Fill(xtx, uv) /\ un' = un
           /\ answer' = << <<xtx', uv>> >>
SimItems == /\ inn' = Fill(inn, iv) /\ answer' = << <<inn', iv>> >>
            /\ UNCHANGED <<uv, iv, un, xtx, yty, clock>>
SimUsers == /\ un' = Fill(un, uv) /\ answer' = << <<un', uv>> >>
            /\ UNCHANGED <<uv, iv, inn, xtx, yty, clock>>
RecalcUser == /\ yty' = Fill(yty, iv) /\ answer' = << <<yty', iv>> >>
              /\ UNCHANGED <<uv, iv, un, inn, xtx, clock>>
RecalcItem == /\ xtx' = Fill(xtx, uv) /\ inn' = Fill(inn, iv)
              /\ answer' = << <<xtx', uv>>, <<inn', iv>> >>
              /\ UNCHANGED <<uv, iv, un, yty, clock>>
Save == /\ un' = 0 /\ inn' = 0 /\ xtx' = 0 /\ yty' = 0 /\ answer' = <<>>
        /\ UNCHANGED <<uv, iv, clock>>
Pick == answer' = <<>> /\ UNCHANGED <<uv, iv, un, inn, xtx, yty, clock>>

Do(op) == CASE op = "fit" -> Fit(FALSE) [] op = "fitcb" -> Fit(TRUE)
            [] op \in {"pfu", "pfun"} -> PfUsers [] op \in {"pfi", "pfin"} -> PfItems
            [] op = "qsi" -> SimItems [] op = "qsu" -> SimUsers
            [] op = "qru" -> RecalcUser [] op = "qri" -> RecalcItem
            [] op = "save" -> Save [] op = "pick" -> Pick
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : Do(op) /\ hist' = Append(hist, op)
        /\ IF Emit /\ Len(hist') = Depth THEN PrintT(<<"CASE", ToJson([kind |-> Kind, hist |-> hist'])>>) ELSE TRUE

\* no answer is computed from derived values of factors that have since changed
NoStaleAnswer == \A k \in 1..Len(answer) : answer[k][1] = answer[k][2]
\* and nothing stale is even kept
NoStaleCache == un \in {0, uv} /\ xtx \in {0, uv} /\ inn \in {0, iv} /\ yty \in {0, iv}
=============================================================================
