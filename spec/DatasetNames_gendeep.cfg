CONSTANTS Names = {"a", "b", "c"} Calls = 4 Modes = {"auto", "down", "short"} Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS RightDataset NothingLost Out
CHECK_DEADLOCK FALSE
