------------------------------- MODULE MCBig --------------------------------
(* The arithmetic of Big agrees with the integers where these do not overflow.*)
EXTENDS Big
CONSTANTS Digits
VARIABLES a, b
Signed == {s * ((d[1] * 1000 + d[2]) * 10 + d[3]) : s \in {1, -1}, d \in Digits \X {0, 1, 499, 999} \X {0, 7}}
Init == a \in Signed /\ b \in Signed
Next == UNCHANGED <<a, b>>
La == LimbsOf(a)
Lb == LimbsOf(b)
Exactly(x, n) == LET d == BigAdd(x, BigNeg(LimbsOf(n))) IN BigWithin(d, 0)
Agrees == /\ Exactly(La, a) /\ Exactly(BigAdd(La, Lb), a + b)
          /\ (Abs(a) < 40000 /\ Abs(b) < 40000) => Exactly(BigMul(La, Lb), a * b)
          /\ BigWithin(La, Abs(a)) /\ (a # 0 => ~BigWithin(La, Abs(a) - 1))
          /\ ~BigWithin(BigAdd(BigShift(La, 3), <<5>>), 4)
          /\ BigWithin(BigAdd(BigMul(La, BigShift(Lb, 2)), BigNeg(BigShift(BigMul(Lb, La), 2))), 0)
          /\ BigWithin(BigDot(<<La, Lb>>, <<Lb, BigNeg(La)>>), 0)
          /\ (a # 0 /\ b # 0) => ~BigWithin(BigDot(<<La, Lb>>, <<BigShift(Lb, 4), La>>), 999999999)
=============================================================================
