SPECIFICATION Spec
CONSTANTS MODE = "alias" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
