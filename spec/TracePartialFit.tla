-------------------------- MODULE TracePartialFit ---------------------------
(* Recorded partial fits.  State: for both sides the sequence of row contents *)
(* (interned digests, 0 = zero vector).  e.us / e.is: contents after the      *)
(* operation; e.now / e.re: stored factors of the updated rows and their      *)
(* recalculated factors (scaled).                                             *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, us, its

Frame(old, new, ids) ==
  LET top == FoldLeft(LAMBDA a, x : Max2(a, x), 0, ids)
      hit == Elems(ids)
  IN { <<"grows_only_as_needed", Len(new) = Max2(Len(old), top + 1)>>,
       <<"other_rows_untouched", \A k \in 1..Min2(Len(old), Len(new)) : (k - 1) \notin hit => new[k] = old[k]>>,
       <<"rows_in_between_are_zero", \A k \in (Len(old) + 1)..Len(new) : (k - 1) \notin hit => new[k] = 0>> }
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Abs(a[k][p] - b[k][p]) <= tol
Fails(e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "u" -> Failing(Frame(us, e.us, e.ids) \cup
              { <<"items_untouched", e.is = its>>,
                <<"updated_rows_are_the_recalculated_ones", Close(e.now, e.re, e.tol)>> })
         [] e.op = "i" -> Failing(Frame(its, e.is, e.ids) \cup
              { <<"users_untouched", e.us = us>>,
                <<"updated_rows_are_the_recalculated_ones", Close(e.now, e.re, e.tol)>> })
         [] e.op = "q" -> Failing(
              { <<"queries_change_nothing", e.us = us /\ e.is = its>>,
                <<"answers_of_the_stored_factors", SameRows(e.qi, e.qs, e.fi, e.fs, 20)>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ us = Traces[c].us /\ its = Traces[c].is
Next == /\ i <= Len(Traces[c].ev)
        /\ LET e == Traces[c].ev[i] IN Report(c, i, Fails(e)) /\ us' = e.us /\ its' = e.is
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
