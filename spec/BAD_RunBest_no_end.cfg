SPECIFICATION Spec
CONSTANTS MaxLen = 6 V = 3 BUG = "no_end"
INVARIANTS Correct Monotone Attained
CHECK_DEADLOCK FALSE
