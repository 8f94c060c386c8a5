------------------------------ MODULE MCScorer ------------------------------
EXTENDS Integers
CONSTANTS RemOwn, Bug, Deep
Items == 0..2
Queries == IF Deep THEN {"a", "b", "d"} ELSE {"a", "b"}
Likes == [t \in {"a", "b", "d"} |-> CASE t = "a" -> {0} [] t = "b" -> {0, 1} [] t = "d" -> {2}]
Sim == [i \in Items |-> [j \in Items |-> CASE i = 0 -> <<2, 1, 0>>[j + 1] [] i = 1 -> <<1, 3, 1>>[j + 1]
                                           [] OTHER -> <<0, 1, 4>>[j + 1]]]
VARIABLES sums, next, head, len, lock, pc, res, round
INSTANCE Scorer WITH NoItem <- -1, EndOfList <- -2, RemoveOwn <- RemOwn, Rounds <- 2
=============================================================================
