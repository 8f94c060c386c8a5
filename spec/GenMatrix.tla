------------------------------ MODULE GenMatrix -----------------------------
(* All matrices NU x NI over Values with at least one entry: printed as JSON. *)
EXTENDS Base, Json
CONSTANTS NU, NI, Values
VARIABLE D
Init == D \in [1..NU -> [1..NI -> Values]]
Next == UNCHANGED D
Emit == IF \E u \in 1..NU, k \in 1..NI : D[u][k] # 0
        THEN PrintT(<<"CASE", ToJson(D)>>) ELSE TRUE
=============================================================================
