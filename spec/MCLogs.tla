------------------------------- MODULE MCLogs -------------------------------
(* The table of logarithms satisfies ln(ab) = ln a + ln b, is increasing with *)
(* 1/(n+1) < ln(n+1) - ln n < 1/n, and ln 2 = 1 - 1/2 + 1/3 - ... : together  *)
(* these pin every entry to within a few units.                               *)
EXTENDS Logs
VARIABLE n
Init == n = 1
Next == n < 1600 /\ n' = n + 1
Laws == /\ \A m \in 1..(1600 \div n) : Abs(Ln6[n * m] - Ln6[n] - Ln6[m]) <= 2
        /\ n < 1600 => /\ Ln6[n + 1] - Ln6[n] >= 1000000 \div (n + 1) - 1
                      /\ Ln6[n + 1] - Ln6[n] <= 1000000 \div n + 1
        /\ n = 1 => Ln6[1] = 0 /\ Ln6[2] = 693147
        /\ FracDiv(n, 7, 6) = (n * 1000000) \div 7 /\ ISqrt(n * n) = n /\ ISqrt(n * n + n) = n
=============================================================================
