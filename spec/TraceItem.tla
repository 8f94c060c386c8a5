------------------------------ MODULE TraceItem -----------------------------
(* Recorded queries of item-item models (C12).  r.sim[i]: the stored          *)
(* neighbours <<j, value * r.S>> of item i, by j; r.exact: the values are integers. *)
(* recommend: e.row, the user's entries <<item, 4 * weight>>.                 *)
EXTENDS TopN, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

NI(r) == Len(r.sim)
Reach(r, e) == IF e.op = "rec" THEN UNION {{x[1] : x \in Elems(r.sim[y[1] + 1])} : y \in Elems(e.row)}
               ELSE {x[1] : x \in Elems(r.sim[e.item + 1])}
\* the entry of column j in a row that is ordered by columns, 0 if there is none
RECURSIVE Entry(_, _, _, _)
Entry(row, j, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == (lo + hi) \div 2 IN
       IF row[m][1] = j THEN row[m][2]
       ELSE IF row[m][1] < j THEN Entry(row, j, m + 1, hi) ELSE Entry(row, j, lo, m - 1)
\* scaled by 4 * S
ScoreOf(r, e, j) ==
  LET V(a) == Entry(r.sim[a + 1], j, 1, Len(r.sim[a + 1]))
  IN IF e.op = "rec" THEN SumTo(Len(e.row), LAMBDA k : e.row[k][2] * V(e.row[k][1])) ELSE 4 * V(e.item)
Tol(r, e) == IF r.exact THEN 0
             ELSE 3 + (IF e.op = "rec" THEN SumTo(Len(e.row), LAMBDA k : Abs(e.row[k][2])) ELSE 4)
Row(r, e) ==
  LET reach == TLCEval(Reach(r, e))
      tol   == TLCEval(Tol(r, e))
      liked == IF e.op = "rec" /\ e.flt THEN {y[1] : y \in Elems(e.row)} ELSE {}
      sel   == Elems(e.sel)
      elig  == (IF e.hassel THEN reach \cap sel ELSE reach) \ (liked \cup Elems(e.filt))
      cands == IF e.hassel THEN sel ELSE elig
      SC    == TLCEval([j \in cands |-> ScoreOf(r, e, j)])
      Better(a, b) == SC[a] > SC[b] + tol
      sent  == [k \in 1..Len(e.ids) |-> e.sc[k][1] = 1]
  IN TopNClauses(e.ids, sent, cands, elig, e.N, Better)
     \cup { <<"one_score_per_id", Len(e.ids) = Len(e.sc)>>,
            <<"score", \A k \in 1..Min2(Len(e.ids), Len(e.sc)) : e.ids[k] \in elig =>
                  e.sc[k][1] = 0 /\ Abs(e.sc[k][2] - SC[e.ids[k]]) <= tol>>,
            <<"scores_decrease", \A k \in 1..(Len(e.sc) - 1) :
                  (e.sc[k][1] = 0 /\ e.sc[k + 1][1] = 0) => e.sc[k][2] >= e.sc[k + 1][2]>> }
Fails(r, e) == IF e.res # "ok" THEN {"query_failed"} ELSE Failing(Row(r, e))
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
