------------------------------ MODULE TraceKnn ------------------------------
(* Recorded fits of item-item models (C11).  r.D: interactions.               *)
(* e.kind, e.K; e.v: the weights before and e.w after normalisation, scaled   *)
(* by e.S and e.Sw; e.sim[i]: stored neighbours <<j, kind, value * Sw^2>>.     *)
EXTENDS KnnWeights, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

Col(m, k) == [u \in 1..Len(m) |-> m[u][k]]
Weights(D, e) ==
  LET U == 1..Len(D)  I == 1..NItems(D)  tot == Total(D)
      Ok(u, k) ==
        CASE e.kind \in {"item", "cosine"} -> e.v[u][k] = D[u][k]
          [] D[u][k] = 0 -> e.v[u][k] = 0
          [] e.kind = "tfidf" -> LET t == TfIdf(D, u, k, e.S) IN
                                 Abs(e.v[u][k] - t) <= 2 + Abs(t) \div 500 + e.S \div 2000
          [] e.kind = "bm25" -> LET t == Bm25(D, u, k, e.k10, e.b4, e.S, tot) IN
                                 Abs(e.v[u][k] - t) <= 2 + Abs(t) \div 300 + e.S \div 300
  IN \A u \in U, k \in I : Ok(u, k)
Normalised(D, e) ==
  IF e.kind \in {"cosine", "tfidf"}
  THEN \A k \in 1..NItems(D) : UnitAlong(Col(e.w, k), Col(e.v, k), e.Sw)
  ELSE e.w = e.v /\ e.S = e.Sw
Neighbours(D, e, a) ==
  LET row == e.sim[a]
      n == Len(row)
      ids == [k \in 1..n |-> row[k][1]]
      num == \A k \in 1..n : row[k][2] = 0
      cooc == {b \in 1..NItems(D) : \E u \in 1..Len(D) : D[u][a] # 0 /\ D[u][b] # 0}
      known == \A k \in 1..n : (ids[k] + 1) \in cooc
      exact == e.kind = "item"
      tol(b) == IF exact THEN 0 ELSE Slack(e.w, a, b) + e.Sw
      P(b) == Product(e.w, a, b)
      out == cooc \ {ids[k] + 1 : k \in 1..n}
  IN { <<"only_items_that_occur_together", known>>,
       <<"each_neighbour_once", Distinct(ids)>>,
       <<"as_many_as_there_are_up_to_K", n <= e.K /\ (n = Min2(e.K, Cardinality(cooc)) \/
             (~exact /\ \A b \in out : Abs(P(b)) <= tol(b)))>>,
       <<"similarity_is_a_number", num>>,
       <<"similarity_is_the_weighted_overlap", (num /\ known) =>
             \A k \in 1..n : Abs(row[k][3] - P(ids[k] + 1)) <= tol(ids[k] + 1)>>,
       <<"no_better_neighbour_left_out", (num /\ known /\ n = e.K) =>
             \A b \in out : \A k \in 1..n : P(b) <= row[k][3] + tol(b) + tol(ids[k] + 1)>> }
\* the same model fitted on the same interactions, in another type, order or by more threads:
\* the values agree far more closely than with the recorded (rounded) weights
SameModel(e, o) == /\ e.kind = o.kind /\ e.K = o.K /\ o.res = "ok" /\ e.Sw = o.Sw
                   /\ (e.kind = "bm25" => e.k10 = o.k10 /\ e.b4 = o.b4)
Agree(e, o) ==
  \A a \in 1..Len(e.sim) : \A x \in Elems(e.sim[a]), y \in Elems(o.sim[a]) :
     (x[1] = y[1] /\ x[2] = 0 /\ y[2] = 0) => Abs(x[3] - y[3]) <= 100 + Abs(y[3]) \div 100000
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE Failing({ <<"independent_of_type_order_and_threads", SameModel(e, r.ev[1]) => Agree(e, r.ev[1])>>,
                  <<"weights", Weights(r.D, e)>>, <<"normalisation", Normalised(r.D, e)>> }
               \cup UNION {Neighbours(r.D, e, a) : a \in 1..NItems(r.D)})
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
