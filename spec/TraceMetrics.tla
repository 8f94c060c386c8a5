---------------------------- MODULE TraceMetrics ----------------------------
(* Recorded evaluations (C14).  r.test[u], r.list[u]: test items and the list *)
(* recommend returned for user u (-1 = padding), r.ni items, r.K.             *)
(* e.m = <<precision, map, ndcg, auc>> scaled by 10^6 (kind, value).          *)
EXTENDS Logs, FiniteSetsExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

\* 10^6 / log2(p + 1): the gain at position p
Gain == [p \in 1..1599 |-> FracDiv(Ln6[2], Ln6[p + 1], 6)]
Ideal(n) == SumTo(n, LAMBDA p : Gain[p])
\* the list up to K or the first padding
Cut(l, K) == LET n == Min2(Len(l), K)
                 pad == {p \in 1..n : l[p] < 0}
             IN SubSeq(l, 1, IF pad = {} THEN n ELSE (CHOOSE p \in pad : \A x \in pad : p <= x) - 1)
\* walk the list: <<hits, 10^6 * sum hits/p, 10^6 * dcg, misses, 2 * correctly ordered pairs>>
Walk(l, t) == FoldLeftDomain(LAMBDA a, p :
     IF l[p] \in t THEN <<a[1] + 1, a[2] + FracDiv(a[1] + 1, p, 6), a[3] + Gain[p], a[4], a[5]>>
     ELSE <<a[1], a[2], a[3], a[4] + 1, a[5] + 2 * a[1]>>, <<0, 0, 0, 0, 0>>, l)
UserMetrics(r, u) ==
  LET t == Elems(r.test[u])
      P == Cardinality(t)
      Neg == r.ni - P
      n == Min2(r.K, P)
      w == Walk(Cut(r.list[u], r.K), t)
  IN << w[1], n, w[2] \div n, FracDiv(w[3], Ideal(n), 6),
        FracDiv(w[5] + (w[1] + P) * (Neg - w[4]), 2 * P * Neg, 6) >>
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE
  LET todo == {u \in 1..Len(r.test) : r.test[u] # <<>>}
      tot == FoldSet(LAMBDA u, a : LET m == UserMetrics(r, u) IN [k \in 1..5 |-> a[k] + m[k]], [k \in 1..5 |-> 0], todo)
      n == Cardinality(todo)
      Is(k, x) == e.m[k][1] = 0 /\ Abs(e.m[k][2] - x) <= 12
  IN Failing({ <<"precision", Is(1, FracDiv(tot[1], tot[2], 6))>>,
               <<"map", Is(2, tot[3] \div n)>>,
               <<"ndcg", Is(3, tot[4] \div n)>>,
               <<"auc", Is(4, tot[5] \div n)>>,
               <<"single_metric_functions_agree", e.single = e.m>> })
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
