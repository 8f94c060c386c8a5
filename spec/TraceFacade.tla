----------------------------- MODULE TraceFacade ----------------------------
(* Recorded calls of the entry points (C22).  Events:                         *)
(*  "make" constructor e.entry, e.k arguments by position, e.named by name;   *)
(*         e.obs[p]: the object's parameter p is 0 the documented default,    *)
(*         1 the value given, 2 something else, 3 not an attribute            *)
(*  "fit"  the object and the class made with the same parameters by name,    *)
(*         both fitted on the same data: shapes, types, callbacks, factors    *)
(*  "rank" rank_items and the recommend call it stands for                    *)
(*  "all"  recommend_all and the recommend call it stands for                 *)
EXTENDS FacadeParams, Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Traces[c].ev[i]
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A r \in 1..Len(a) : Len(a[r]) = Len(b[r]) /\ \A p \in 1..Len(a[r]) : Abs(a[r][p] - b[r][p]) <= tol
MakeFails ==
  LET given == Given(E.entry, E.k, Elems(E.named)) IN
  Failing({ <<"given_parameters_are_held", \A p \in given : E.obs[p] \in {1, 3}>>,
            <<"other_parameters_have_their_default", \A p \in Elems(Params(E.entry)) \ given : E.obs[p] \in {0, 3}>> })
FitFails ==
  Failing({ <<"number_of_factors", E.cols = E.wcols>>,
            <<"floating_point_type", E.dt = E.wdt>>,
            <<"one_callback_per_iteration", E.calls = E.wcalls>>,
            <<"same_factors_as_the_class", Close(E.v, E.w, E.tol)>> })
Fails ==
  IF E.res # "ok" THEN {"call_failed"}
  ELSE CASE E.op = "make" -> MakeFails
         [] E.op = "fit" -> FitFails
         [] E.op = "rank" ->
              Failing({ <<"ranks_every_selected_item", E.mf => /\ Len(E.ids[1]) = Cardinality(Elems(E.sel))
                                                              /\ Elems(E.ids[1]) = Elems(E.sel)>>,
                        <<"same_as_recommend", SameRows(E.ids, E.sc, E.wids, E.wsc, E.tol)>> })
         [] E.op = "all" ->
              Failing({ <<"same_as_recommend", SameRows(E.ids, E.wsc, E.wids, E.wsc, E.tol)>> })
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails)
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
