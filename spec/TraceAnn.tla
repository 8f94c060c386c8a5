------------------------------ MODULE TraceAnn ------------------------------
(* Recorded queries of the approximate (ANN) models (C18).  r.V[m]: the item  *)
(* factors (integers) of the wrapped model after its m-th fit.  Events:       *)
(*  "rec" / "simi"  per query k: the query vector e.xs[k] (scaled by e.S),    *)
(*        the ids to hide e.hide[k], the answer; e.full: the search is        *)
(*        exhaustive; e.skipzero: items with zero factors are not indexed;    *)
(*        e.exact: the query vector is an integer vector                      *)
(*  "off"  the answer and the wrapped model's, approximation switched off     *)
(*  "kept" whether a query left the wrapped model's factors alone             *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
\* 10000 * cosine
Cos(x, y) == LET p == Norm2(x) * Norm2(y) k == Pow2Fit(p) r == ISqrt(p * k * k)
             IN IF p = 0 THEN 0
                ELSE LET q == Abs(Dot(x, y)) * k
                         d1 == (100 * q) \div r
                         d2 == (100 * (100 * q - d1 * r)) \div r
                     IN Sign(Dot(x, y)) * (100 * d1 + d2)
RowClauses(V, e, k) ==
  LET n == Len(V)
      x == e.xs[k]
      D == [j \in 0..(n - 1) |-> IF e.op = "rec" THEN Dot(x, V[j + 1]) ELSE Cos(x, V[j + 1])]
      T == [j \in 0..(n - 1) |-> IF e.op = "rec" /\ ~e.exact THEN e.eps + SumTo(Len(x), LAMBDA p : Abs(V[j + 1][p])) ELSE e.eps]
      cands == {j \in 0..(n - 1) : e.op = "simi" /\ e.skipzero => Norm2(V[j + 1]) # 0}
      elig == cands \ Elems(e.hide[k])
      raw == e.ids[k]  sc == e.sc[k]
      real == SelectSeq([m \in 1..Len(raw) |-> m], LAMBDA m : raw[m] # -1)
      len == Len(real)
      ids == [m \in 1..len |-> raw[real[m]]]
      inr == \A m \in 1..len : ids[m] \in cands
      want == Min2(e.N, Cardinality(elig))
      val(m) == sc[real[m]]
  IN { <<"at_most_N", Len(raw) <= e.N /\ Len(sc) = Len(raw)>>,
       <<"padding_last_with_the_lowest_score", real = [m \in 1..len |-> m] /\ \A m \in (len + 1)..Len(raw) : sc[m][1] = 1>>,
       <<"ids_distinct_and_valid", inr /\ Distinct(ids)>>,
       <<"nothing_filtered_is_returned", \A m \in 1..len : ids[m] \notin Elems(e.hide[k])>>,
       <<"true_scores", inr => \A m \in 1..len : val(m)[1] = 0 /\ Abs(val(m)[2] - D[ids[m]]) <= T[ids[m]]>>,
       <<"best_first", \A m \in 1..(len - 1) : val(m)[2] >= val(m + 1)[2]>>,
       <<"as_many_as_there_are", e.full => len = want>>,
       <<"no_better_item_left_out", (e.full /\ inr) =>
            \A m \in 1..len : \A o \in elig \ Elems(ids) : D[o] <= D[ids[m]] + T[o] + T[ids[m]]>> }
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "kept" -> Failing({<<"wrapped_model_unchanged", e.same>>})
         [] e.op = "off" -> Failing({<<"same_answer_as_the_wrapped_model", SameRows(e.ids, e.sc, e.wids, e.wsc, e.eps)>>})
         [] OTHER -> IF Len(e.ids) # Len(e.xs) THEN {"one_row_per_query"}
                     ELSE UNION {Failing(RowClauses(r.V[e.m], e, k)) : k \in 1..Len(e.xs)}
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
