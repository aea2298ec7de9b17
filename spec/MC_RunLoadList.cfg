SPECIFICATION ScenSpec
CONSTANTS Rows = 3 Cols = 2 MaxFiles = 2 MR = 2 MC = 3 BUG = "none"
INVARIANTS Show
CHECK_DEADLOCK FALSE
