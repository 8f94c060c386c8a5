----------------------------- MODULE TraceSplit -----------------------------
(* Recorded splits (C13).  Interactions are <<user, item, 4 * value>>.        *)
(* r.inp: the interactions given; e.train, e.test: the two results; e.again:  *)
(* the results of a second call with an equally seeded generator.             *)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

CountIn(s, u) == Cardinality({k \in 1..Len(s) : s[k][1] = u})
Common(r, e) ==
  { <<"input_unchanged", Elems(e.after) = Elems(r.inp) /\ Len(e.after) = Len(r.inp)>>,
    <<"same_shape", e.shapes = <<r.shape, r.shape>> >>,
    <<"same_seed_same_split", Elems(e.again[1]) = Elems(e.train) /\ Elems(e.again[2]) = Elems(e.test)>>,
    <<"global_generators_untouched", e.glob>>,
    <<"nothing_twice", Len(e.train) = Cardinality(Elems(e.train)) /\ Len(e.test) = Cardinality(Elems(e.test))>>,
    <<"train_or_test_not_both", Elems(e.train) \cap Elems(e.test) = {}>>,
    <<"values_unchanged", Elems(e.train) \cup Elems(e.test) \subseteq Elems(r.inp)>> }
Tts(r, e) ==
  LET in == Elems(r.inp) lost == in \ (Elems(e.train) \cup Elems(e.test)) IN
  { <<"only_negative_values_dropped", \A x \in lost : x[3] < 0>>,
    <<"no_negative_value_in_test", \A x \in Elems(e.test) : x[3] > 0>>,
    <<"everything_in_train_at_one", e.pct >= 100 => Elems(e.train) = in>>,
    <<"nothing_in_train_at_zero", e.pct <= 0 => e.train = <<>> >> }
Lko(r, e) ==
  LET in == Elems(r.inp)
      users == {x[1] : x \in in}
      eligible == {u \in users : CountIn(r.inp, u) > e.K + 1}
      tested == {x[1] : x \in Elems(e.test)}
      only == IF e.frac64 = 0 THEN 0 ELSE Max2(1, (Cardinality(users) * e.frac64) \div 64)
      kept == Cardinality(eligible \ tested)
  IN { <<"partition", Elems(e.train) \cup Elems(e.test) = in>>,
       <<"only_eligible_users_in_test", tested \subseteq eligible>>,
       <<"exactly_K_held_out", \A u \in tested : CountIn(e.test, u) = e.K>>,
       <<"train_only_users", kept <= only /\ kept >= only - Cardinality(users \ eligible)>> }
\* many splits with different seeds: e.held[x] how often interaction x was in test, of e.n
Coverage(r, e) ==
  LET in == r.inp
      eligible(u) == CountIn(r.inp, u) > e.K + 1
  IN { <<"every_interaction_can_be_held_out", \A x \in 1..Len(in) : eligible(in[x][1]) => e.held[x] > 0>>,
       <<"every_user_can_stay_in_train", e.frac64 > 0 => \A k \in 1..Len(e.skipped) : e.skipped[k][2] > 0>>,
       <<"every_user_can_be_tested", \A k \in 1..Len(e.skipped) : e.skipped[k][2] < e.n>> }
\* train_percentage is the share of train: 6 sigma over all draws
Share(r, e) ==
  LET p == e.pct  n == e.draws
  IN { <<"train_percentage", LET d == Abs(100 * e.intrain - n * p) IN
             (d \div 100) * (d \div 100) <= 36 * ((n * p * (100 - p)) \div 10000) + 100>> }
Fails(r, e) ==
  IF e.res # "ok" THEN {"call_failed"}
  ELSE CASE e.op = "tts" -> Failing(Common(r, e) \cup Tts(r, e))
         [] e.op = "lko" -> Failing(Common(r, e) \cup Lko(r, e))
         [] e.op = "cover" -> Failing(Coverage(r, e))
         [] e.op = "share" -> Failing(Share(r, e))
Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
