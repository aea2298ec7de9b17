SPECIFICATION Spec
CONSTANTS MODE = "nograd" Depth = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
