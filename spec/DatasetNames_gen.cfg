CONSTANTS Names = {"a", "b"} Calls = 4 Modes = {"auto", "down", "short"} Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS RightDataset NothingLost Out
CHECK_DEADLOCK FALSE
