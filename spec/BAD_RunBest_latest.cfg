SPECIFICATION Spec
CONSTANTS MaxLen = 6 V = 3 BUG = "latest"
INVARIANTS Correct Monotone Attained
CHECK_DEADLOCK FALSE
