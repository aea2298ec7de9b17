SPECIFICATION Spec
CONSTANTS Rows = 3 Cols = 2 MaxFiles = 2 MR = 3 MC = 3 BUG = "none"
INVARIANTS Correct
CHECK_DEADLOCK FALSE
