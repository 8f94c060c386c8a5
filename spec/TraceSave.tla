------------------------------ MODULE TraceSave -----------------------------
(* Recorded histories of a model and its copies (C15).  After every operation *)
(* e.ca, e.cb: contents (interned digests) of A and B; e.ha, e.hb their       *)
(* hyper-parameters; e.fa, e.fb factors (scaled) and e.qa, e.qb answers.      *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, ca, cb

Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Near(a[k][p], b[k][p], tol)
Equal(e) == { <<"same_class", e.cls>>,
              <<"same_hyper_parameters", e.ha = e.hb>>,
              <<"same_factors", Close(e.fa, e.fb, e.tol)>>,
              <<"same_answers", SameRows(e.qai, e.qas, e.qbi, e.qbs, 20)>> }
Fails(e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "copy" -> Failing(Equal(e) \cup { <<"original_unchanged", e.ca = ca>> })
         [] e.op = "both" -> Failing(Equal(e))
         [] e.op = "A" -> Failing({ <<"copy_not_affected_by_the_original", e.cb = cb>> })
         [] e.op = "B" -> Failing({ <<"original_not_affected_by_the_copy", e.ca = ca>> })
         [] OTHER -> {}
Init == c \in 1..Len(Traces) /\ i = 1 /\ ca = Traces[c].ca /\ cb = 0
Next == /\ i <= Len(Traces[c].ev)
        /\ LET e == Traces[c].ev[i] IN
             /\ Report(c, i, Fails(e))
             /\ ca' = e.ca /\ cb' = e.cb
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
