SPECIFICATION Spec
CONSTANTS Slots = 3 Vals = 2 BUG = "full"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
