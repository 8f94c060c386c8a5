--------------------------- MODULE TraceLifecycle ---------------------------
(* Recorded histories of real models.  State: the content (interned digest)   *)
(* of the user and of the item factors.  Every operation may change only what *)
(* it is meant to change, and every answer has to be the answer of a fresh    *)
(* model with the same factors (e.fids / e.fsc).                              *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, uf, itf
Query(op) == op \in {"qsi", "qsu", "qru", "qri", "obs"}
Fails(e) ==
  Failing({ <<"operation_succeeds", e.res = "ok">>,
            <<"queries_change_nothing", Query(e.op) => e.u = uf /\ e.v = itf>>,
            <<"saved_factors_come_back", e.op \in {"save", "pick"} => e.u = uf /\ e.v = itf>>,
            <<"partial_fit_of_users_keeps_items", e.op \in {"pfu", "pfun"} => e.v = itf>>,
            <<"partial_fit_of_items_keeps_users", e.op \in {"pfi", "pfin"} => e.u = uf>>,
            <<"answer_reflects_current_factors",
               e.res = "ok" => SameRows(e.ids, e.sc, e.fids, e.fsc, e.tol)>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ uf = Traces[c].u /\ itf = Traces[c].v
Next == /\ i <= Len(Traces[c].ev)
        /\ LET e == Traces[c].ev[i] IN Report(c, i, Fails(e)) /\ uf' = e.u /\ itf' = e.v
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
