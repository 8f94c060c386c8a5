----------------------------- MODULE KnnWeights -----------------------------
(* The weighted item-item product of the nearest neighbour models.  D[u][i]:  *)
(* the interactions (integers, 0 = none).  Fixed point throughout.            *)
EXTENDS Logs

NItems(D) == Len(D[1])
CountOf(D, u) == Cardinality({i \in 1..NItems(D) : D[u][i] # 0})
\* 10^6 * idf of a user
Idf6(D, u) == Ln6[NItems(D)] - Ln6[1 + CountOf(D, u)]
\* sqrt(count) * idf, scaled by S (S divides 10^8)
TfIdf(D, u, i, S) == RDiv(ISqrt(D[u][i] * 100000000) * RDiv(Idf6(D, u), 100), 100000000 \div S)
\* BM25 with K1 = k10/10, B = b4/4, scaled by S (S divides 10^7)
Total(D) == SumTo(Len(D), LAMBDA u : Sum(D[u]))
ItemSum(D, i) == SumTo(Len(D), LAMBDA u : D[u][i])
Bm25Tf3(D, u, i, k10, b4, tot) ==
  LET x == D[u][i] IN
  FracDiv(x * (k10 + 10) * 4 * tot,
          k10 * ((4 - b4) * tot + b4 * ItemSum(D, i) * NItems(D)) + 40 * x * tot, 3)
Bm25(D, u, i, k10, b4, S, tot) ==
  RDiv(Bm25Tf3(D, u, i, k10, b4, tot) * RDiv(Idf6(D, u), 100), 10000000 \div S)

\* w is the unit vector along v (both recorded, scaled), or zero where v is zero
SamePlaces(w, v) == \A u \in 1..Len(v) : Abs(v[u]) > 1 => w[u] * Sign(v[u]) >= 0
UnitAlong(w, v, unit) ==
  /\ SamePlaces(w, v)
  /\ \A u1, u2 \in 1..Len(v) : Abs(w[u1] * v[u2] - w[u2] * v[u1])
        <= Abs(w[u1]) + Abs(w[u2]) + Abs(v[u1]) + Abs(v[u2]) + 1
  /\ (\E u \in 1..Len(v) : Abs(v[u]) > 1)
        => Abs(Norm2(w) - unit * unit) <= 2 * SumTo(Len(w), LAMBDA u : Abs(w[u])) + Len(w) + unit
  /\ (\A u \in 1..Len(v) : v[u] = 0) => \A u \in 1..Len(w) : w[u] = 0

\* the product of two columns and how well it is known from the recorded weights
Product(w, i, j) == SumTo(Len(w), LAMBDA u : w[u][i] * w[u][j])
Slack(w, i, j) == SumTo(Len(w), LAMBDA u : Abs(w[u][i]) + Abs(w[u][j]) + 1)
=============================================================================
