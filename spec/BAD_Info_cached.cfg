SPECIFICATION Spec
CONSTANTS Slots = 3 Vals = 2 BUG = "cached"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
