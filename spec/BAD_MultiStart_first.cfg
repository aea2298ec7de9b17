SPECIFICATION Spec
CONSTANTS MaxN = 3 BUG = "first"
INVARIANTS Some Unique NoFail Admitted Optimal Order 
CHECK_DEADLOCK FALSE
