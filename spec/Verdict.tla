------------------------------ MODULE Verdict -------------------------------
(* Which calls have to be rejected, and how.  A call e has                    *)
(*  op    "rec", "simi", "simu", "recu", "reci", "pfu", "pfi", "refit", "lko" *)
(*  knn   whether the model is an item-item model                             *)
(*  nq    the number of ids asked for; ids, the ids                           *)
(*  rows, csr, liked   the matrix passed along: number of rows, whether it is *)
(*        CSR, the column ids it stores; usesm: whether the call reads it     *)
(*  hassel, sel, hasfilt, filt   a selection of candidates, a list to filter  *)
(*  nu, n  users and items of the model; m the number of rows / columns of    *)
(*        the refit; k, frac (in %) for a split                               *)
EXTENDS Base
InRange(s, n) == \A k \in 1..Len(s) : s[k] >= 0 /\ s[k] < n
Beyond(s, n) == \E k \in 1..Len(s) : s[k] >= n

\* the number of candidates / of columns of the matrix passed along
Cands(e) == IF e.op = "simu" THEN e.nu ELSE e.n
Cols(e) == IF e.op \in {"reci", "pfi"} \/ (e.op = "simi" /\ e.usesm) THEN e.nu ELSE e.n

\* the reasons to reject a call, with the exceptions that say so
Reasons(e) ==
  Failing({
    <<"not_csr", ~(e.op = "rec" /\ e.usesm /\ ~e.csr)>>,
    <<"rows", ~(e.usesm /\ e.rows # e.nq)>>,
    <<"both", ~(e.hassel /\ e.hasfilt)>>,
    <<"selection", ~(e.hassel /\ Len(e.sel) > 0 /\ ~InRange(e.sel, Cands(e)))>>,
    <<"liked", ~(e.usesm /\ ~(e.hassel /\ ~e.knn /\ ~e.recalc) /\ Beyond(e.liked, Cols(e)))>>,
    <<"id", ~(e.op \in {"rec", "simi", "simu"} /\ ~e.knn /\ ~e.recalc
              /\ Beyond(e.ids, IF e.op = "simi" THEN e.n ELSE e.nu))>>,
    <<"filtered", ~(e.op \in {"rec", "simi", "simu"} /\ ~e.knn /\ e.hasfilt /\ ~InRange(e.filt, Cands(e)))>>,
    <<"negative", ~(e.op \in {"pfu", "pfi"} /\ \E k \in 1..Len(e.ids) : e.ids[k] < 0)>>,
    <<"dims", ~(e.op = "refit" /\ ~e.knn /\ e.m # <<e.nu, e.n>>)>>,
    <<"k", ~(e.op = "lko" /\ e.k < 1)>>,
    <<"fraction", ~(e.op = "lko" /\ (e.frac < 0 \/ e.frac >= 100))>> })
\* where the interface leaves the outcome open
Open(e) == (e.hassel /\ Len(e.sel) = 0) \/ (e.hassel /\ ~e.knn /\ ~e.recalc /\ e.usesm /\ Beyond(e.liked, Cols(e)))
           \/ (e.knn /\ e.op = "simi" /\ Beyond(e.ids, e.n))
ValueErrors == {"not_csr", "rows", "both", "dims", "k", "fraction"}
IndexErrors == {"selection", "liked", "id", "filtered", "negative"}
Allowed(e) == LET r == Reasons(e) IN
  IF r = {} THEN {"ok"}
  ELSE (IF r \cap ValueErrors # {} THEN {"ValueError"} ELSE {})
       \cup (IF r \cap IndexErrors # {} THEN {"IndexError", "ValueError"} ELSE {})
=============================================================================
