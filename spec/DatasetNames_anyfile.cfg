CONSTANTS Names = {"a", "b", "c"} Calls = 5 Modes = {"auto", "down", "short"} Bug = "anyfile" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS RightDataset NothingLost
CHECK_DEADLOCK FALSE
