SPECIFICATION Spec
CONSTANTS MODE = "stale" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
