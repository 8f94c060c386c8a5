-------------------------------- MODULE TopN --------------------------------
(* What a top-N answer has to be.  A query has a set of candidate ids, a      *)
(* subset of them that may be recommended (eligible), and a total preorder    *)
(* Better(a, b): candidate a scores strictly higher than candidate b.         *)
(* An answer is a sequence of ids, with for each one whether its score is the *)
(* 'filtered out' sentinel.                                                   *)
EXTENDS Base

(* clauses: set of <<name, condition>> *)
TopNClauses(ids, sent, cands, elig, N, Better(_, _)) ==
  LET n     == Len(ids)
      nel   == Min2(N, Cardinality(elig))
      inr   == \A i \in 1..n : ids[i] \in cands
      uni   == Distinct(ids)
      ret   == Elems(ids)
  IN { <<"count", n = Min2(N, Cardinality(cands))>>,
       <<"id_is_a_candidate", inr>>,
       <<"ids_distinct", uni>>,
       (* every eligible id that fits comes before any ineligible one, and   *)
       (* only ineligible ones carry the sentinel                            *)
       <<"eligible_first", inr => \A i \in 1..n : (i <= nel) <=> (ids[i] \in elig)>>,
       <<"sentinel_iff_ineligible", inr => \A i \in 1..n : sent[i] <=> ids[i] \notin elig>>,
       <<"order", inr => \A i \in 1..(Min2(n, nel) - 1) : ~Better(ids[i + 1], ids[i])>>,
       <<"optimal", (inr /\ n >= nel /\ nel > 0 /\ nel < Cardinality(elig)) =>
                      \A j \in elig \ ret : ~Better(j, ids[nel])>> }
=============================================================================
