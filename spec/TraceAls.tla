------------------------------ MODULE TraceAls ------------------------------
(* Recorded factor recalculations (C07).  Record: r.Y (integer factors of the *)
(* other side), r.a4, r.l16.  Events:                                         *)
(*  "recalc"  rows e.rows, factors e.xs = round(e.S * x)                      *)
(*  "rec" / "simi"  recommend / similar_items with recalculation: the query's *)
(*            factors e.xs at scale e.S and the answer                        *)
(*  "precise" a recalculation of a model in double precision (AlsPrecise)     *)
EXTENDS AlsPrecise, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

RowOk(r, G, row, xs, S) ==
  IF Len(row) = 0 THEN \A p \in 1..Len(xs) : xs[p] = 0
  ELSE Solves(NormalA(r.Y, G, row, r.a4, r.l16), NormalB(r.Y, row, r.a4), xs, S, 1)

\* the answer ranks the items by D (scaled S), each value known within tol
RankClauses(ids, sc, elig, n, N, D, T) ==
  LET m == Min2(N, Cardinality(elig))
      inr == \A j \in 1..Len(ids) : ids[j] \in 0..(n - 1)
  IN { <<"count", Len(ids) = Min2(N, n) /\ Len(sc) = Len(ids)>>,
       <<"ids_distinct_and_valid", inr /\ Distinct(ids)>>,
       <<"eligible_first", inr => \A j \in 1..Min2(m, Len(ids)) : ids[j] \in elig>>,
       <<"score_is_that_of_the_recalculated_factors",
           inr => \A j \in 1..Min2(m, Len(ids)) : sc[j][1] = 0 /\ Abs(sc[j][2] - D[ids[j]]) <= T[ids[j]]>>,
       <<"best_items", (inr /\ Len(ids) >= m) =>
           \A j \in 1..m : \A o \in elig \ {ids[k] : k \in 1..j} : D[o] <= D[ids[j]] + T[o] + T[ids[j]]>> }

RecFails(r, e) ==
  LET n == Len(r.Y)
      D == [j \in 0..(n - 1) |-> Dot(r.Y[j + 1], e.xs)]
      T == [j \in 0..(n - 1) |-> SumTo(Len(e.xs), LAMBDA p : Abs(r.Y[j + 1][p])) + 3]
      elig == (0..(n - 1)) \ Elems(e.hide)
  IN Failing(RankClauses(e.ids, e.sc, elig, n, e.N, D, T))

\* cosines of the recalculated item factors with the stored ones, times 10000
Cos(x, y) == LET p == Norm2(x) * Norm2(y) k == Pow2Fit(p) r == ISqrt(p * k * k)
             IN IF p = 0 THEN 0
                ELSE LET q == Abs(Dot(x, y)) * k \* |cos| = q / r; long division, digit by digit
                         d1 == (100 * q) \div r
                         d2 == (100 * (100 * q - d1 * r)) \div r
                     IN Sign(Dot(x, y)) * (100 * d1 + d2)
SimFails(r, e) ==
  LET n == Len(r.V)
      D == [j \in 0..(n - 1) |-> Cos(e.xs, r.V[j + 1])]
      T == [j \in 0..(n - 1) |-> e.tol]
  IN Failing(RankClauses(e.ids, e.sc, 0..(n - 1), n, e.N, D, T))

Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "recalc" ->
              Failing({ <<"one_row_each", Len(e.xs) = Len(e.rows)>>,
                        <<"a_matrix_for_many_a_vector_for_one", e.ndim = (IF e.many THEN 2 ELSE 1)>>,
                        <<"rows_solve_the_normal_equations",
                           LET G == Gram(r.Y) IN \A k \in 1..Min2(Len(e.xs), Len(e.rows)) :
                             RowOk(r, G, e.rows[k], e.xs[k], e.S)>> })
         [] e.op = "rec" -> RecFails(r, e)
         [] e.op = "precise" -> PreciseFails(e)
         [] e.op = "simi" -> SimFails(r, e)

Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
