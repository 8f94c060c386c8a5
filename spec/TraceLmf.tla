------------------------------ MODULE TraceLmf ------------------------------
(* Recorded LMF trainings (C17): r.rows (per user <<item, 4 value>>), r.lr,   *)
(* r.reg (thousandths), r.np (negatives per entry), r.ni.  Events:            *)
(*  "start"  factors e.X, e.Y before a fit                                    *)
(*  "epoch"  factors after epoch e.k (0, 1, ...)                              *)
(*  "init" "frame" "same" "drawn": see below                                  *)
(* gu, gi: per row, the possible Adagrad accumulators (the negatives drawn    *)
(* are not observed; every draw that explains the recorded step is kept).     *)
EXTENDS Lmf, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, gu, gi
vars == <<c, i, gu, gi>>
R == Traces[c]
E == R.ev[i]
Column(rows, j) == LET F(u) == SelectSeq(rows[u], LAMBDA e : e[1] = j)
                   IN FoldLeft(LAMBDA acc, u : IF F(u) = <<>> THEN acc ELSE Append(acc, <<u - 1, F(u)[1][2]>>),
                               <<>>, [u \in 1..Len(rows) |-> u])
Columns == TLCEval([j \in 1..R.ni |-> Column(R.rows, j - 1)])
\* multisets of n negatives: rows of the other side that have interactions
Draws(rows, other, n) ==
  LET used == {j \in 1..other : \E u \in 1..Len(rows) : \E m \in 1..Len(rows[u]) : rows[u][m][1] = j - 1}
      F == {f \in [used -> 0..n] : n = FoldLeft(LAMBDA a, j : a + (IF j \in used THEN f[j] ELSE 0), 0, [j \in 1..other |-> j])}
  IN IF n = 0 THEN {[j \in 1..other |-> 0]} ELSE {[j \in 1..other |-> IF j \in used THEN f[j] ELSE 0] : f \in F}
\* neg_prop negatives per entry, at most as many as there are rows on the other side
NegCount(row, other) == Min2(other, Len(row) * R.np)
RowCands(x, x1, Y, rows, row, cands, skip) ==
  LET cols == Len(x)
      negsets == Draws(rows, Len(Y), NegCount(row, Len(Y)))
      One(negs) == LET d == TLCEval(Gradient(x, Y, row, negs, R.reg))
                       err == TLCEval(GradErr(x, Y, row, negs))
                       New(g) == TLCEval([k \in 1..cols |-> g[k] + Sq6(d[k])])
                   IN {n \in {New(g) : g \in cands} :
                         \A k \in 1..cols : k = skip \/ StepOk(x[k], x1[k], d[k], n[k], R.lr, err[k])}
  IN UNION {One(negs) : negs \in negsets}
Zero(n, cols) == [u \in 1..n |-> {[k \in 1..cols |-> 0]}]
\* one half epoch: the new accumulators (empty set: the step is not explained)
Half(X, X1, Y, rows, g, skip) ==
  [u \in 1..Len(X) |-> IF rows[u] = <<>> THEN g[u] ELSE RowCands(X[u], X1[u], Y, rows, rows[u], g[u], skip)]
Kept(X, X1, rows, skip) == \A u \in 1..Len(X) : rows[u] = <<>> =>
                             \A k \in 1..Len(X[u]) : k = skip \/ X1[u][k] = X[u][k]
Ones(X, k) == \A u \in 1..Len(X) : X[u][k] = S
Prev == R.ev[i - 1]
EpochFails(nu, ni) ==
  LET cols == Len(E.X[1]) IN
  Failing({ <<"epochs_reported_in_order", E.k = IF Prev.op = "start" THEN 0 ELSE Prev.k + 1>>,
            <<"user_steps_follow_the_gradient", \A u \in 1..Len(E.X) : nu[u] # {}>>,
            <<"item_steps_follow_the_gradient", \A u \in 1..Len(E.Y) : ni[u] # {}>>,
            <<"rows_without_interactions_keep_their_values",
                Kept(Prev.X, E.X, R.rows, cols - 1) /\ Kept(Prev.Y, E.Y, Columns, cols)>>,
            <<"user_bias_column_is_one", Ones(E.X, cols - 1)>>,
            <<"item_bias_column_is_one", Ones(E.Y, cols)>> })
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Abs(a[k][p] - b[k][p]) <= tol
Empty(rows) == {u - 1 : u \in {x \in 1..Len(rows) : rows[x] = <<>>}}
\* items without interactions
Unused == TLCEval((0..(R.ni - 1)) \ UNION {{R.rows[u][m][1] : m \in 1..Len(R.rows[u])} : u \in 1..Len(R.rows)})
Other(e) ==
  CASE e.op = "start" -> {}
    \* factors of a model that was only initialised: which rows are zero (apart from the constant)
    [] e.op = "init" -> Failing({ <<"users_without_interactions_start_at_zero", Elems(e.uz) = Empty(R.rows)>>,
                                  <<"items_without_interactions_start_at_zero", Elems(e.iz) = Unused>> })
    \* a training of any size: which rows changed (apart from the constant column)
    [] e.op = "frame" -> Failing({ <<"only_interacting_users_change", Elems(e.cu) \cap Empty(R.rows) = {}>>,
                                   <<"only_interacting_items_change", Elems(e.ci) \cap Unused = {}>>,
                                   <<"interacting_users_are_trained", Elems(e.cu) \cup Empty(R.rows) = 0..(Len(R.rows) - 1)>>,
                                   <<"interacting_items_are_trained", Elems(e.ci) \cup Unused = 0..(R.ni - 1)>>,
                                   <<"user_bias_column_is_one", e.uone>>, <<"item_bias_column_is_one", e.ione>>,
                                   <<"callback_once_per_epoch", e.calls = [k \in 1..e.epochs |-> k - 1]>>,
                                   <<"finite", e.finite>> })
    [] e.op = "same" -> Failing({ <<"same_user_factors", Close(e.X, e.X2, e.tol)>>,
                                  <<"same_item_factors", Close(e.Y, e.Y2, e.tol)>> })
    \* e.drawn[u]: the items seen drawn as negatives for user u over many runs
    [] e.op = "drawn" -> Failing({ <<"any_interaction_can_be_drawn_as_negative",
                                     \A u \in 1..Len(e.drawn) : Elems(e.drawn[u]) = 0..(R.ni - 1)>> })
    \* e.n[k][b]: how many negatives of row k fell in bucket b (bucket of a row j of the other side:
    \* j mod e.nb), decoded from the step; e.tot: summed over all rows and runs
    [] e.op = "negs" -> LET rows == IF e.side = "user" THEN R.rows ELSE Columns
                            other == IF e.side = "user" THEN R.ni ELSE Len(R.rows)
                            SumB(f) == SumTo(e.nb, LAMBDA b : f[b])
                            nnz == SumTo(Len(rows), LAMBDA k : Len(rows[k]))
                            In(b) == SumTo(Len(rows), LAMBDA k : Cardinality({m \in 1..Len(rows[k]) : rows[k][m][1] % e.nb = b - 1}))
                            T == SumB(e.tot)
                        IN Failing({ <<"negatives_per_row", \A k \in 1..Len(rows) :
                                          /\ SumB(e.n[k]) = IF rows[k] = <<>> THEN 0 ELSE NegCount(rows[k], other)
                                          /\ \A b \in 1..e.nb : e.n[k][b] >= 0>>,
                                     <<"negatives_drawn_uniformly_from_the_interactions", \A b \in 1..e.nb :
                                          /\ Abs(e.tot[b] * nnz - T * In(b)) <= 6 * ISqrt(T * In(b) * (nnz - In(b))) + nnz
                                          /\ \A k \in 1..Len(e.rt) : LET t == SumB(e.rt[k])
                                               IN Abs(e.rt[k][b] * nnz - t * In(b)) <= 7 * ISqrt(t * In(b) * (nnz - In(b))) + nnz>> })
    \* e.n rows with one entry each (a multiple of e.nb); e.off: rows with another number of negatives
    \* than R.np; e.tot: the negatives drawn from each of e.nb equal parts
    [] e.op = "many" -> LET T == (e.n \div e.nb) * R.np
                        IN Failing({ <<"negatives_per_row", e.off = 0>>,
                                     <<"negatives_drawn_uniformly_from_the_interactions", \A b \in 1..e.nb :
                                          Abs(e.tot[b] - T) <= 6 * ISqrt(T) + 2>> })
    \* factors K and M in units of eps: e.n[k][b], component b of the gradient of row k in units of eps / 40.
    \* Far out the step hardly depends on the gradient any more: there only roughly
    [] e.op = "fine" -> LET rows == IF e.side = "user" THEN R.rows ELSE Columns
                            Want(k, b) == 125 * SumTo(Len(rows[k]), LAMBDA m : rows[k][m][2] * e.K[rows[k][m][1] + 1][b])
                                          - R.reg * e.M[k][b]
                        IN Failing({ <<"gradient_of_the_likelihood_minus_regularization",
                                        \A k \in 1..Len(rows) : rows[k] # <<>> => \A b \in 1..e.nb :
                                          LET w == Want(k, b) IN Abs(25 * e.n[k][b] - w) <= 100 + Abs(w) \div (IF Abs(w) < 25000 THEN 200 ELSE 4)>> })
Init == c \in 1..Len(Traces) /\ i = 1 /\ gu = <<>> /\ gi = <<>>
Next == /\ i <= Len(R.ev)
        /\ IF E.res # "ok" THEN Report(c, i, {"call_failed"}) /\ UNCHANGED <<gu, gi>>
           ELSE IF E.op = "start"
           THEN /\ gu' = Zero(Len(E.X), Len(E.X[1])) /\ gi' = Zero(Len(E.Y), Len(E.Y[1]))
           ELSE IF E.op = "epoch"
           THEN LET cols == Len(E.X[1])
                    cs == TLCEval(Columns)
                    nu == Half(Prev.X, E.X, Prev.Y, R.rows, gu, cols - 1)
                    ni == Half(Prev.Y, E.Y, E.X, cs, gi, cols)
                IN /\ Report(c, i, EpochFails(nu, ni))
                   /\ gu' = [u \in DOMAIN nu |-> IF nu[u] = {} THEN gu[u] ELSE nu[u]]
                   /\ gi' = [u \in DOMAIN ni |-> IF ni[u] = {} THEN gi[u] ELSE ni[u]]
           ELSE Report(c, i, Other(E)) /\ UNCHANGED <<gu, gi>>
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
