SPECIFICATION Spec
CONSTANTS MODE = "copy" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
