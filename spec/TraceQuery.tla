----------------------------- MODULE TraceQuery -----------------------------
(* Recorded queries of matrix-factorization models against the specification. *)
(* A record r holds the factors as integers (the real ones are these divided  *)
(* by a power of two, so products and sums are exact): r.U (users), r.V       *)
(* (items), and r.ev, the queries with their answers.                         *)
EXTENDS TopN, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

(*************************** scores ****************************************)
\* recommend: inner product, recorded as round(16 * score * 4^s)
DotScoreOk(u, v, s) == s[1] = 0 /\ Abs(s[2] - 16 * Dot(u, v)) <= 2

\* cosine, recorded as round(10000 * score); zero vectors have cosine 0
CosScoreOk(u, v, s) ==
  LET p == Norm2(u) * Norm2(v)
      k == Pow2Fit(p)
      r == ISqrt(p * k * k)                    \* k * |u||v|, at least 2^14
      d == Dot(u, v)
  IN s[1] = 0 /\ IF p = 0 THEN Abs(s[2]) <= 5
                 ELSE Abs(s[2] * r - 10000 * (d * k)) <= 5 * r + 2 * Abs(s[2])
\* cos(u, a) > cos(u, b), exactly: dot/|a| compared by sign and squares
SgnSq(d) == Sign(d) * d * d
CosBetter(u, a, b) ==
  LET na == Norm2(a) nb == Norm2(b)
      da == IF na = 0 THEN 0 ELSE SgnSq(Dot(u, a))
      db == IF nb = 0 THEN 0 ELSE SgnSq(Dot(u, b))
  IN da * Max2(nb, 1) > db * Max2(na, 1)

(*************************** one answer row ********************************)
RowClauses(r, e, k) ==
  LET ids  == e.ids[k]
      sc   == e.sc[k]
      n    == IF e.op = "simu" THEN Len(r.U) ELSE Len(r.V)
      all  == 0..(n - 1)
      cands == IF e.hassel THEN Elems(e.sel) ELSE all
      hide == Elems(e.filt) \cup (IF e.op = "rec" /\ e.flt THEN Elems(e.liked[k]) ELSE {})
      elig == cands \ hide
      \* e.xq: the vectors of recalculated items
      q    == IF "xq" \in DOMAIN e THEN e.xq[k]
              ELSE IF e.op = "rec" \/ e.op = "simu" THEN r.U[e.q[k] + 1] ELSE r.V[e.q[k] + 1]
      F(j) == IF e.op = "simu" THEN r.U[j + 1] ELSE r.V[j + 1]
      D    == [j \in cands |-> IF e.op = "rec" THEN Dot(q, F(j)) ELSE 0]
      Better(a, b) == IF e.op = "rec" THEN D[a] > D[b] ELSE CosBetter(q, F(a), F(b))
      sent == [j \in 1..Len(ids) |-> sc[j][1] = 1]
      ScoreOk(j) == (sc[j][1] = 1) \/ (IF e.op = "rec" THEN DotScoreOk(q, F(ids[j]), sc[j])
                                       ELSE CosScoreOk(q, F(ids[j]), sc[j]))
  IN TopNClauses(ids, sent, cands, elig, e.N, Better)
     \cup { <<"score", \A j \in 1..Len(ids) : ids[j] \in cands => ScoreOk(j)>>,
            <<"one_score_per_id", Len(ids) = Len(sc)>> }

Fails(r, e) ==
  IF e.res # "ok" THEN {"query_failed"}
  ELSE IF Len(e.ids) # Len(e.q) \/ Len(e.sc) # Len(e.q) THEN {"one_row_per_query"}
  ELSE UNION {Failing(RowClauses(r, e, k)) : k \in 1..Len(e.q)}

Init == c \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[c].ev)
        /\ Report(c, i, Fails(Traces[c], Traces[c].ev[i]))
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
