---------------------------- MODULE TraceExplain ----------------------------
(* Recorded explanations (C10).  r.Y integer item factors, r.a4, r.l16 as in  *)
(* Als.  An event explains item e.item for a user with the entries e.row:     *)
(* e.total, e.top = <<id, contribution>> (scaled by e.S).  e.w is a witness   *)
(* for W y_item (scaled): the specification verifies it before using it.      *)
EXTENDS Als, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

\* confidences too small for fixed point: contributions at scale e.S, not compared with W
SmallFails(e) ==
  LET pos == {e.row[k][1] : k \in {j \in 1..Len(e.row) : e.row[j][2] > 0}}
      ids == [j \in 1..Len(e.top) |-> e.top[j][1]]
  IN Failing(
     { <<"as_many_as_asked_for", Len(ids) = Min2(e.N, Cardinality(pos))>>,
       <<"only_positively_rated_items", Distinct(ids) /\ Elems(ids) \subseteq pos>>,
       <<"total_is_the_sum_of_all_contributions",
           Elems(ids) = pos => Abs(e.total - SumTo(Len(ids), LAMBDA j : e.top[j][2])) <= Len(ids) + 4>>,
       <<"total_is_the_score_of_the_recalculated_user", Abs(e.total - e.score) <= 8 + Abs(e.total) \div 1000>>,
       <<"decreasing", \A j \in 1..(Len(ids) - 1) : e.top[j][2] >= e.top[j + 1][2]>> })
Positive(row) == SelectSeq(row, LAMBDA x : x[2] > 0)
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE IF e.op = "small" THEN SmallFails(e)
  ELSE
  LET A == NormalA(r.Y, Gram(r.Y), e.row, r.a4, r.l16)
      y == r.Y[e.item + 1]
      f == Len(y)
      pos == Positive(e.row)
      n == Len(pos)
      \* 16 * contribution, scaled by S, and how well it is known
      C == [k \in 1..n |-> Conf16(pos[k][2], r.a4) * Dot(e.w, r.Y[pos[k][1] + 1])]
      T == [k \in 1..n |-> Conf16(pos[k][2], r.a4) * SumTo(f, LAMBDA p : Abs(r.Y[pos[k][1] + 1][p])) + 32]
      at(id) == CHOOSE k \in 1..n : pos[k][1] = id
      m == Len(e.top)
      known == \A j \in 1..m : e.top[j][1] \in {pos[k][1] : k \in 1..n}
      sumT == SumTo(n, LAMBDA k : T[k])
  IN IF ~ Solves(A, [p \in 1..f |-> 16 * y[p]], e.w, e.S, 1) THEN {"witness_is_wrong"}
     ELSE Failing(
     { <<"total_is_the_sum_of_all_contributions", Abs(16 * e.total - Sum(C)) <= sumT + 32>>,
       <<"total_is_the_score_of_the_recalculated_user",
           Abs(e.total - Dot(y, e.xs)) <= SumTo(f, LAMBDA p : Abs(y[p])) + 3 + e.S \div 2000>>,
       <<"as_many_as_asked_for", m = Min2(e.N, n)>>,
       <<"only_positively_rated_items", known /\ Distinct([j \in 1..m |-> e.top[j][1]])>>,
       <<"contribution", known => \A j \in 1..m : Abs(16 * e.top[j][2] - C[at(e.top[j][1])]) <= T[at(e.top[j][1])]>>,
       <<"decreasing", \A j \in 1..(m - 1) : e.top[j][2] >= e.top[j + 1][2]>>,
       <<"largest", known => \A k \in 1..n : (\A j \in 1..m : e.top[j][1] # pos[k][1])
                      => \A j \in 1..m : C[at(e.top[j][1])] + T[at(e.top[j][1])] + T[k] >= C[k]>> })
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
