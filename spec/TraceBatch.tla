----------------------------- MODULE TraceBatch -----------------------------
(* Recorded batch queries next to the same queries made one at a time.        *)
(* e.bids / e.bsc: the rows of the batch answer; e.sids / e.ssc: the answers  *)
(* of the individual calls.  Scores are <<kind, scaled value>>.               *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

\* the part of a batch row before the padding
Real(ids) == LET k == SelectInSeq(ids, LAMBDA x : x = -1) IN IF k = 0 THEN Len(ids) ELSE k - 1

RowClauses(e, k) ==
  LET bi == e.bids[k] bs == e.bsc[k] si == e.sids[k] ss == e.ssc[k]
      n == Real(bi) pad == e.padded
  IN { <<"padding_is_minus_one", \A j \in (n + 1)..Len(bi) : bi[j] = -1 /\ bs[j][1] = 1>>,
       <<"padded_only_if_allowed", pad \/ n = Len(bi)>>,
       <<"row_width", ~pad \/ Len(bi) = e.N>>,
       <<"same_number_of_results", n = Min2(Len(si), e.N) /\ Len(si) <= e.N>>,
       <<"same_results", (n = Len(si)) => SameAnswer(bi, bs, si, ss, e.tol)>> }

Fails(e) ==
  IF e.res # "ok" THEN {"query_failed"}
  ELSE IF Len(e.bids) # Len(e.sids) THEN {"one_row_per_query"}
  ELSE UNION {Failing(RowClauses(e, k)) : k \in 1..Len(e.sids)}

Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
