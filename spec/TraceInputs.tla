---------------------------- MODULE TraceInputs -----------------------------
(* Recorded calls with valid and invalid arguments (C21).  e.c0, e.c1: the    *)
(* content of the model before and after; e.a0, e.a1: the same of what the    *)
(* caller passed in.  "same": a model fitted on the same interactions passed  *)
(* in another form: e.key, the learned values e.v.  "nan": a fit that may     *)
(* have produced NaN factors (e.nan).                                         *)
EXTENDS Verdict, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, first
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Abs(a[k][p] - b[k][p]) <= tol
E == Traces[c].ev[i]
Fails ==
  CASE E.op = "same" ->
         Failing({ <<"fit_accepted", E.res = "ok">>,
                   <<"callers_matrix_unchanged", E.a0 = E.a1>>,
                   <<"same_interactions_same_model",
                       E.res = "ok" => \A x \in first : x.key = E.key => Close(x.v, E.v, E.tol)>> })
    [] E.op = "nan" ->
         Failing({ <<"nan_factors_are_reported", E.nan => E.res # "ok">>,
                   <<"fit_error_means_nan", E.res = "ModelFitError" => E.nan>>,
                   <<"clean_data_fits", E.clean => (E.res = "ok" /\ ~E.nan)>>,
                   <<"error_is_a_fit_error", (~E.clean /\ E.native) => E.res \in {"ok", "ModelFitError"}>> })
    [] OTHER ->
         Failing({ <<"verdict", Open(E) \/ E.res \in Allowed(E)>>,
                   <<"rejected_call_changes_nothing", E.res # "ok" => E.c0 = E.c1>>,
                   <<"query_changes_nothing", E.op \in {"rec", "simi", "simu", "recu", "reci", "lko"} => E.c0 = E.c1>>,
                   <<"arguments_unchanged", E.a0 = E.a1>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ first = {}
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails)
        /\ first' = IF E.op = "same" /\ E.res = "ok" /\ \A x \in first : x.key # E.key
                    THEN first \cup {[key |-> E.key, v |-> E.v]} ELSE first
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
