----------------------------- MODULE TraceRepro -----------------------------
(* Recorded trainings and splits (C20).  Random operations have a key e.key   *)
(* (everything the result may depend on), e.group (the key without the seed), *)
(* the result e.v (scaled factors, or the entries of a split); every event    *)
(* has e.g0, e.g1: digests of the global generators before and after.         *)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, first
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Abs(a[k][p] - b[k][p]) <= tol
E == Traces[c].ev[i]
Fails ==
  IF E.res # "ok" THEN {"call_failed"}
  ELSE Failing({ <<"global_generators_untouched", E.op = "perturb" \/ E.g0 = E.g1>>,
                 <<"same_random_state_same_result",
                     E.op = "random" => \A x \in first : x.key = E.key => Close(x.v, E.v, E.tol)>>,
                 <<"different_seeds_different_result",
                     (E.op = "random" /\ E.distinct) => \A x \in first : (x.group = E.group /\ x.key # E.key) => x.v # E.v>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ first = {}
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails)
        /\ first' = IF E.res = "ok" /\ E.op = "random" /\ \A x \in first : x.key # E.key
                    THEN first \cup {[key |-> E.key, group |-> E.group, v |-> E.v]} ELSE first
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
