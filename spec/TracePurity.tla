---------------------------- MODULE TracePurity -----------------------------
(* Histories of queries on one model.  The specification's state is the       *)
(* content of the model (an interned digest) and, for every distinct query,   *)
(* its answer.  A query may change neither; neither may it change what the    *)
(* caller passed in.  Events:                                                 *)
(*  "q"    a query: model content before / after, argument content before /   *)
(*         after, answer; the same key is the same query with the same args   *)
(*  "rej"  a call that has to be rejected, as above                           *)
(*  "conc" the answers the same queries gave when issued concurrently         *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, model, answers
vars == <<c, i, model, answers>>
NoAnswer == [ids |-> <<>>, sc |-> <<>>]

Frame(e) == { <<"model_unchanged", e.before = model /\ e.after = model>>,
              <<"arguments_unchanged", e.args = e.args2>> }
Fails(e) ==
  CASE e.op = "q" ->
         Failing(Frame(e) \cup
           { <<"query_answered", e.res = "ok">>,
             <<"same_query_same_answer",
                (e.key \in DOMAIN answers /\ e.res = "ok") =>
                SameRows(e.ids, e.sc, answers[e.key].ids, answers[e.key].sc, e.tol)>> })
    [] e.op = "rej" -> Failing(Frame(e) \cup { <<"rejected", e.res # "ok">> })
    [] e.op = "conc" ->
         Failing({ <<"query_answered", e.res = "ok">>,
                   <<"known_query", e.key \in DOMAIN answers>>,
                   <<"concurrent_answer_is_the_sequential_one",
                      (e.key \in DOMAIN answers /\ e.res = "ok") =>
                      SameRows(e.ids, e.sc, answers[e.key].ids, answers[e.key].sc, e.tol)>> })

Init == /\ c \in 1..Len(Traces) /\ i = 1
        /\ model = Traces[c].model
        /\ answers = <<>>
Next == /\ i <= Len(Traces[c].ev)
        /\ LET e == Traces[c].ev[i] IN
           /\ Report(c, i, Fails(e))
           /\ answers' = IF e.op = "q" /\ e.res = "ok" /\ e.key \notin DOMAIN answers
                         THEN answers @@ (e.key :> [ids |-> e.ids, sc |-> e.sc]) ELSE answers
           /\ model' = model
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
