SPECIFICATION Spec
CONSTANTS MaxN = 3 BUG = "nocon"
INVARIANTS Some Unique NoFail Admitted Optimal Order 
CHECK_DEADLOCK FALSE
