SPECIFICATION Spec
CONSTANTS MODE = "ref" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
