------------------------------ MODULE TraceBpr ------------------------------
(* Recorded BPR trainings of any size and thread count (C16): what must stay. *)
(* r.inter: interactions <<user, item>> (0-based), r.nu, r.ni, r.verify.      *)
EXTENDS Base, FiniteSetsExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

\* the items of every user
Likes(r) == [u \in 0..(r.nu - 1) |-> {r.inter[k][2] : k \in {m \in 1..Len(r.inter) : r.inter[m][1] = u}}]
All(r) == {x[2] : x \in Elems(r.inter)}
\* e.uz, e.iz: users / items whose factors (bias excluded for users) are all zero; e.ones: bias column of users is 1
InitOk(r, e) ==
  LET L == TLCEval(Likes(r)) IN
  { <<"users_without_interactions_start_at_zero", \A u \in 0..(r.nu - 1) : L[u] = {} => u \in Elems(e.uz)>>,
    <<"items_without_interactions_start_at_zero", \A j \in 0..(r.ni - 1) : j \notin All(r) => j \in Elems(e.iz)>>,
    <<"interacting_rows_start_random", (\A u \in 0..(r.nu - 1) : L[u] # {} => u \notin Elems(e.uz)) /\
                                       (\A j \in All(r) : j \notin Elems(e.iz))>>,
    <<"constant_one_in_the_bias_dimension", e.ones>> }
\* e.changedu, e.changedi: rows that changed; e.calls: <<epoch, correct, skipped>> per callback
FitOk(r, e) ==
  LET n == Len(r.inter)
      L == TLCEval(Likes(r))
      all == TLCEval(All(r))
      legal == TLCEval({u \in 0..(r.nu - 1) : L[u] # {} /\ (r.verify => L[u] # all)})
      drawn == TLCEval([j \in 0..(r.ni - 1) |-> Cardinality({k \in 1..n : r.inter[k][2] = j})])
      \* interactions whose item the user likes
      own == TLCEval([u \in 0..(r.nu - 1) |-> FoldSet(LAMBDA j, a : a + drawn[j], 0, L[u])])
  IN
  { <<"users_without_a_legal_sample_unchanged", \A u \in Elems(e.changedu) : u \in legal>>,
    <<"items_without_interactions_unchanged", Elems(e.changedi) \subseteq All(r)>>,
    <<"constant_one_in_the_bias_dimension", e.ones>>,
    <<"factors_are_numbers", e.finite>>,
    \* without regularization what the liked item gains the disliked one loses: the sums of the
    \* item factors before and after (one thread only)
    <<"item_factors_are_moved_in_opposite_directions", e.sums = <<>> \/
          \A k \in 1..Len(e.sums[1]) : Abs(e.sums[1][k] - e.sums[2][k]) <= 3>>,
    <<"one_callback_per_epoch", Len(e.calls) = e.epochs /\ \A k \in 1..Len(e.calls) : e.calls[k][1] = k - 1>>,
    <<"counts_within_the_number_of_interactions", \A k \in 1..Len(e.calls) :
          e.calls[k][2] >= 0 /\ e.calls[k][3] >= 0 /\ e.calls[k][2] + e.calls[k][3] <= n>>,
    <<"nothing_skipped_without_verification", ~r.verify => \A k \in 1..Len(e.calls) : e.calls[k][3] = 0>>,
    <<"everything_skipped_when_nothing_is_legal", (r.verify /\ legal = {}) =>
          \A k \in 1..Len(e.calls) : e.calls[k][3] = n>>,
    \* interactions are drawn uniformly: the share of skipped samples, within 6 sigma
    <<"skipped_share", LET bad == SumTo(n, LAMBDA a : own[r.inter[a][1]])
                           m == n * e.epochs
                           mean == (m * bad) \div (n * n)
                           rest == ((n * n - bad) * 1000) \div (n * n) + 1    \* thousandths
                           d == Abs(SumTo(Len(e.calls), LAMBDA k : e.calls[k][3]) - mean)
                       IN r.verify => d * d <= 36 * (((mean + 1) * rest) \div 1000 + 1) + 4>> }
\* many one-epoch trainings: every item (one interaction each) is drawn as liked and as disliked
CoverOk(e) ==
  { <<"every_interaction_can_be_drawn_as_liked", \A k \in 1..Len(e.net) : e.net[k][2] > 0>>,
    <<"every_interaction_can_be_drawn_as_disliked", \A k \in 1..Len(e.net) : e.net[k][1] < 0>> }
\* e.n users who like one item each: e.first, e.left: users / items the samples have not reached in the
\* first epoch (a user with probability 1/e, an item 1/e^2; 6 sigma) and in all 32 epochs
TouchOk(e) ==
  LET Share(p) == (e.n \div 1000) * p  Near(k, m) == Abs(k - m) <= 6 * ISqrt(m) + e.n \div 500
  IN { <<"interactions_are_drawn_uniformly", Near(e.first[1], Share(368)) /\ Near(e.first[2], Share(135))>>,
       <<"every_interaction_can_be_drawn_as_liked", e.left[1] = 0>>,
       <<"every_interaction_can_be_drawn_as_disliked", e.left[2] = 0>> }
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE Failing(CASE e.op = "init" -> InitOk(r, e) [] e.op = "fit" -> FitOk(r, e) [] e.op = "cover" -> CoverOk(e)
                [] e.op = "touch" -> TouchOk(e))
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
