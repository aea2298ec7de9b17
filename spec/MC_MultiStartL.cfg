SPECIFICATION Spec
CONSTANTS MaxN = 4 BUG = "none"
INVARIANTS Some Unique NoFail Admitted Optimal Order Log
CHECK_DEADLOCK FALSE
