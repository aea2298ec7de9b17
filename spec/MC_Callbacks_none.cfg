SPECIFICATION Spec
CONSTANTS MODE = "none" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
