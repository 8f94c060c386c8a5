------------------------------ MODULE MCSigmoid ------------------------------
(* sigmoid(0) = 1/2 and the differential equation s' = s (1 - s), by central  *)
(* differences, pin the table down; doubling: logit(s) is linear.             *)
EXTENDS Sigmoid
VARIABLE k
Init == k = 1
Next == k < 321 /\ k' = k + 1
Laws == /\ k = 1 => Sig6[1] = 500000
        /\ k < 321 => Sig6[k + 1] >= Sig6[k]
        \* 16 (s[k+1] - s[k-1]) = s (1 - s) up to third order terms
        /\ (k > 1 /\ k < 321) =>
             LET s == Sig6[k] \div 100 IN
             Abs(16 * (Sig6[k + 1] - Sig6[k - 1]) - (s * (10000 - s)) \div 100) <= 150
        /\ k = 36 => Abs(Sig6[1 + 32] - 731059) <= 1 /\ Abs(Sig6[1 + 64] - 880797) <= 1 /\ Abs(Sig6[1 + 128] - 982014) <= 1
        /\ Abs(Sigmoid6(k, 1000) + Sigmoid6(-k, 1000) - 1000000) <= 1
=============================================================================
