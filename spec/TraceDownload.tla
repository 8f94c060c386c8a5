---------------------------- MODULE TraceDownload ---------------------------
(* Recorded calls of the dataset functions (C19).  Events in order:           *)
(*  "start" call e.p begins                                                   *)
(*  "end"   call e.p ends: e.res ("ok", "error", "killed", "hang"), e.right   *)
(*          (the result is the published dataset), e.reqs (requests made),    *)
(*          e.fault: "none", "server" (the transfer cannot succeed: refused,  *)
(*          reset, truncated, http error, no space), "int" (interrupted),     *)
(*          "kill"                                                            *)
(* Both name their dataset (e.name).  cached: the datasets some call has      *)
(* returned; seen: the calls whose dataset was cached when they started.      *)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, cached, seen
E == Traces[c].ev[i]
EndFails ==
  Failing({ <<"result_is_the_published_dataset", E.res = "ok" => E.right>>,
            <<"call_ends", E.res # "hang">>,
            <<"undisturbed_call_succeeds", E.fault = "none" => E.res = "ok">>,
            <<"cached_dataset_is_used", (E.p \in seen /\ E.fault \in {"none", "server"}) => E.res = "ok" /\ E.reqs = 0>>,
            <<"fails_when_it_cannot_be_had", (E.first /\ E.fault = "server") => E.res # "ok" \/ E.reqs >= 1>>,
            <<"downloads_when_not_cached", (E.first /\ E.res = "ok") => E.reqs >= 1>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ cached = {} /\ seen = {}
Next == /\ i <= Len(Traces[c].ev)
        /\ CASE E.op = "clear" -> cached' = {} /\ seen' = {}
             [] E.op = "start" -> seen' = (IF E.name \in cached THEN seen \cup {E.p} ELSE seen \ {E.p}) /\ UNCHANGED cached
             [] E.op = "end" -> /\ Report(c, i, EndFails)
                                /\ cached' = (IF E.res = "ok" /\ E.right THEN cached \cup {E.name} ELSE cached)
                                /\ UNCHANGED seen
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
