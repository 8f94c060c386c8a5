--------------------------- MODULE TraceBprReach ----------------------------
(* BPR training as a transition system: every epoch takes as many samples as  *)
(* there are interactions, each one any interaction (the liked item of its    *)
(* user) and any other interaction's item.  For each recorded training run    *)
(* TLC explores all sequences of samples from the recorded initial factors;   *)
(* the recorded final factors and counts have to be among the outcomes        *)
(* (printed as MATCH).                                                        *)
EXTENDS Bpr, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, X, Y, correct, skipped, order
\* r.inter: interactions <<user, item>> (1-based), r.X0, r.Y0, r.lr, r.reg, r.verify,
\* r.epochs, r.X1, r.Y1, r.correct, r.skipped (of the last epoch), r.tol
R == Traces[c]
N == Len(R.inter)
Init == /\ c \in 1..Len(Traces) /\ k = 0 /\ X = Traces[c].X0 /\ Y = Traces[c].Y0
        /\ correct = 0 /\ skipped = 0
        /\ order \in {"liked first", "disliked first", "at once"} \X {"liked first", "disliked first", "at once"}
Likes(u, j) == \E x \in 1..N : R.inter[x] = <<u, j>>
Reset(v) == IF k % N = 0 THEN 0 ELSE v             \* counts are per epoch
\* liked and disliked are the same item: which of the two updates comes first (or whether
\* both start from the old row) is nobody's business, but an implementation sticks to it
SameItem(x, y, z) ==
  LET by(o) == IF o = "liked first" THEN DislikedStep(x, LikedStep(x, y, z, R.lr, R.reg), z, R.lr, R.reg)
               ELSE IF o = "disliked first"
               THEN LikedStep(x, DislikedStep(x, y, z, R.lr, R.reg), z, R.lr, R.reg)
               ELSE [q \in 1..Len(y) |-> LikedStep(x, y, z, R.lr, R.reg)[q]
                                         + DislikedStep(x, y, z, R.lr, R.reg)[q] - y[q]]
  IN [q \in 1..Len(y) |-> IF q = Len(y) THEN by(order[2])[q] ELSE by(order[1])[q]]
Sample(a, b) ==
  LET u == R.inter[a][1]  li == R.inter[a][2]  di == R.inter[b][2]
      sc == ScoreDiff(X[u], Y[li], Y[di])
      z == Z(sc)
  IN IF R.verify /\ Likes(u, di)
     THEN /\ skipped' = Reset(skipped) + 1 /\ correct' = Reset(correct) /\ UNCHANGED <<X, Y>>
     ELSE /\ X' = [X EXCEPT ![u] = UserStep(X[u], Y[li], Y[di], z, R.lr, R.reg)]
          /\ IF li # di
             THEN Y' = [Y EXCEPT ![li] = LikedStep(X[u], Y[li], z, R.lr, R.reg),
                                 ![di] = DislikedStep(X[u], Y[di], z, R.lr, R.reg)]
             ELSE Y' = [Y EXCEPT ![li] = SameItem(X[u], Y[li], z)]
          /\ skipped' = Reset(skipped)
          \* a sample counts as correct when the liked item already scored higher
          /\ \/ sc > -3 /\ correct' = Reset(correct) + 1
             \/ sc < 3 /\ correct' = Reset(correct)
Close(A, B) == \A p \in 1..Len(A) : \A q \in 1..Len(A[p]) : Abs(A[p][q] - B[p][q]) <= R.tol
Match == k = N * R.epochs /\ Close(X, R.X1) /\ Close(Y, R.Y1)
         /\ (R.correct # -1 => correct = R.correct) /\ (R.skipped # -1 => skipped = R.skipped)
Next == /\ k < N * R.epochs
        /\ \E a, b \in 1..N : Sample(a, b)
        /\ k' = k + 1 /\ UNCHANGED <<c, order>>
Emit == IF Match THEN PrintT(<<"MATCH", c>>) ELSE TRUE
=============================================================================
