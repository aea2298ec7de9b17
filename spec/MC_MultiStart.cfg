SPECIFICATION Spec
CONSTANTS MaxN = 3 BUG = "none"
INVARIANTS Some Unique NoFail Admitted Optimal Order Log
CHECK_DEADLOCK FALSE
