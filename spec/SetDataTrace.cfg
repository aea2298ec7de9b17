SPECIFICATION Spec
CONSTANTS NMax = 2 Depth = 2
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
