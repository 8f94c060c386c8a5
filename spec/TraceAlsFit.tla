---------------------------- MODULE TraceAlsFit -----------------------------
(* Recorded ALS fits (C08).  Events:                                          *)
(*  "exact" one iteration from identity item factors, regularization 1: user  *)
(*          factors are multiples of 1/e.z exactly; users must solve against  *)
(*          the old items, items against the new users                        *)
(*  "fit"   a fit of several iterations: per iteration the factors and the    *)
(*          solutions against the previous ones, the losses, the callbacks    *)
(*  "same"  two ways of training that have to give the same factors           *)
(*  "loss"  the loss of integer factors                                       *)
(*  "precise" the user factors of one iteration in double precision           *)
EXTENDS AlsPrecise, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A p \in 1..Len(a[k]) : Abs(a[k][p] - b[k][p]) <= tol
\* rows of the transposed matrix
Column(rows, j) == LET F(u) == SelectSeq(rows[u], LAMBDA e : e[1] = j)
                   IN FoldLeft(LAMBDA acc, u : IF F(u) = <<>> THEN acc ELSE Append(acc, <<u - 1, F(u)[1][2]>>),
                               <<>>, [u \in 1..Len(rows) |-> u])

ExactFails(e) ==
  LET f == e.f
      I == [p \in 1..f |-> [q \in 1..f |-> IF p = q THEN 1 ELSE 0]]
      GI == Gram(I)
      GX == Gram(e.X)
      UserOk(u) == LET row == e.rows[u] IN
        IF row = <<>> THEN \A p \in 1..f : e.X[u][p] = 0
        ELSE LET A == NormalA(I, GI, row, e.a4, 16) b == NormalB(I, row, e.a4)
             IN \A p \in 1..f : Dot(A[p], e.X[u]) = e.z * b[p]
      \* e.X is z times the user factors: the equations are multiplied by z * z
      ItemOk(j) == LET row == Column(e.rows, j - 1) IN
        IF row = <<>> THEN \A p \in 1..f : e.Y[j][p] = 0
        ELSE LET A == NormalA(e.X, GX, row, e.a4, 16 * e.z * e.z)
                 b == NormalB(e.X, row, e.a4)
             IN Solves(A, [p \in 1..f |-> e.z * b[p]], e.Y[j], e.S, 1)
  IN Failing({ <<"user_factors_exact", e.dyadic>>,
               <<"users_solve_against_the_old_items", \A u \in 1..Len(e.rows) : UserOk(u)>>,
               <<"items_solve_against_the_new_users", \A j \in 1..f : ItemOk(j)>> })

FitFails(e) ==
  Failing({ <<"callback_once_per_iteration", e.epochs = [k \in 1..e.n |-> k - 1]>>,
            <<"only_the_callback_given", e.wrong = 0>>,
            <<"users_solved_against_previous_items", \A k \in 1..Len(e.X) : Close(e.X[k], e.XR[k], e.tol)>>,
            <<"items_solved_against_new_users", \A k \in 1..Len(e.Y) : Close(e.Y[k], e.YR[k], e.tol)>>,
            <<"loss_never_increases", \A k \in 2..Len(e.loss) : e.loss[k] <= e.loss[k - 1] + e.ltol>>,
            <<"callback_loss_is_the_objective",
                ~e.asked \/ (Len(e.closs) = e.n /\ \A k \in 1..Len(e.closs) : Abs(e.closs[k] - e.loss[k + 1]) <= e.ltol)>>,
            <<"nothing_reported_without_being_asked", e.asked \/ e.closs = <<>> >> })

\* 16 * total objective, and 16 * total confidence
LossFails(e) ==
  LET total == SumTo(Len(e.X), LAMBDA u : Objective(e.Y, e.rows[u], e.a4, e.l16, e.X[u]))
               + e.l16 * SumTo(Len(e.Y), LAMBDA j : Norm2(e.Y[j]))
      nnz == SumTo(Len(e.rows), LAMBDA u : Len(e.rows[u]))
      conf == SumTo(Len(e.rows), LAMBDA u : SumTo(Len(e.rows[u]), LAMBDA k : Conf16(e.rows[u][k][2], e.a4)))
      den == conf + 16 * (Len(e.X) * Len(e.Y) - nnz)
  IN Failing({ <<"loss_is_the_normalised_objective", Abs(e.loss * den - e.S * total) <= den + (e.S * total) \div 100000>> })

Fails(e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "exact" -> ExactFails(e)
         [] e.op = "fit" -> FitFails(e)
         [] e.op = "same" -> Failing({ <<"same_user_factors", Close(e.X, e.X2, e.tol)>>,
                                       <<"same_item_factors", Close(e.Y, e.Y2, e.tol)>> })
         [] e.op = "loss" -> LossFails(e)
         [] e.op = "precise" -> PreciseFails(e)

Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
