---------------------------- MODULE LmfParallel -----------------------------
(* A parallel LMF epoch: the users are split into static blocks, each thread  *)
(* clears its own gradient buffer, accumulates the entries of its row one at  *)
(* a time and writes the row; all users are written before any item is        *)
(* processed against them.  Values are abstract: a user's step is the set of  *)
(* <<item, version of the item>> it was computed from, and vice versa.        *)
EXTENDS Base
CONSTANTS NU, NI, Threads, Bug
VARIABLES L, phase, th, buf, ver
vars == <<L, phase, th, buf, ver>>
N(p) == IF p = "users" THEN NU ELSE NI
T == Cardinality(Threads)
\* static schedule: contiguous blocks
Lo(t, n) == ((t - 1) * n) \div T + 1
Hi(t, n) == (t * n) \div T
Entries(p, r) == IF p = "users" THEN {j \in 1..NI : L[r][j] = 1} ELSE {u \in 1..NU : L[u][r] = 1}
B(t) == IF Bug = "sharedbuf" THEN 1 ELSE t
\* ver[p][r]: <<>> at first, then the set the row's step was computed from
Start(p) == [t \in Threads |-> [at |-> "clear", r |-> Lo(t, N(p)), left |-> {}, p |-> p]]
Init == /\ L \in [1..NU -> [1..NI -> {0, 1}]]
        /\ th = Start("users") /\ phase = "users"
        /\ buf = [t \in Threads |-> {}]
        /\ ver = [p \in {"users", "items"} |-> [r \in 1..N(p) |-> <<"old">>]]
OtherSide(p) == IF p = "users" THEN "items" ELSE "users"
Clear(t) ==
  LET s == th[t] IN
  /\ s.at = "clear" /\ s.r <= Hi(t, N(s.p))
  /\ IF Entries(s.p, s.r) = {}
     THEN th' = [th EXCEPT ![t].r = @ + 1] /\ UNCHANGED buf
     ELSE /\ th' = [th EXCEPT ![t].at = "add", ![t].left = Entries(s.p, s.r)]
          /\ buf' = [buf EXCEPT ![B(t)] = IF Bug = "noclear" THEN @ ELSE {}]
  /\ UNCHANGED <<L, phase, ver>>
Add(t) ==
  LET s == th[t] IN
  /\ s.at = "add" /\ s.left # {}
  /\ LET j == CHOOSE x \in s.left : \A y \in s.left : x <= y IN
     /\ buf' = [buf EXCEPT ![B(t)] = @ \cup {<<j, ver[OtherSide(s.p)][j][1]>>}]
     /\ th' = [th EXCEPT ![t].left = @ \ {j}]
  /\ UNCHANGED <<L, phase, ver>>
Write(t) ==
  LET s == th[t] IN
  /\ s.at = "add" /\ s.left = {}
  /\ ver' = [ver EXCEPT ![s.p][s.r] = <<"new", buf[B(t)]>>]
  /\ th' = [th EXCEPT ![t].at = "clear", ![t].r = @ + 1]
  /\ UNCHANGED <<L, phase, buf>>
Through(t) == th[t].at = "clear" /\ th[t].r > Hi(t, N(th[t].p))
Barrier == /\ phase = "users" /\ \A t \in Threads : Through(t)
           /\ phase' = "items" /\ th' = Start("items") /\ UNCHANGED <<L, buf, ver>>
\* without the barrier a thread goes on to its items on its own
GoOn(t) == /\ Bug = "nobarrier" /\ th[t].p = "users" /\ Through(t)
           /\ th' = [th EXCEPT ![t] = Start("items")[t]] /\ UNCHANGED <<L, phase, buf, ver>>
Next == Barrier \/ \E t \in Threads : Clear(t) \/ Add(t) \/ Write(t) \/ GoOn(t)
Done == \A t \in Threads : th[t].p = "items" /\ Through(t)
Want(p, r) == IF Entries(p, r) = {} THEN <<"old">>
              ELSE <<"new", {<<j, IF p = "items" THEN "new" ELSE "old">> : j \in Entries(p, r)}>>
RightSteps == Done => \A p \in {"users", "items"} : \A r \in 1..N(p) : ver[p][r] = Want(p, r)
=============================================================================
