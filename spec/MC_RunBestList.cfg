SPECIFICATION Spec
CONSTANTS MaxLen = 5 V = 3 BUG = "none"
INVARIANTS Log
CHECK_DEADLOCK FALSE
