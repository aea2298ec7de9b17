SPECIFICATION Spec
CONSTANTS MaxN = 3 BUG = "ok"
INVARIANTS Some Unique NoFail Admitted Optimal Order 
CHECK_DEADLOCK FALSE
