SPECIFICATION Spec
CONSTANTS Slots = 3 Vals = 2 BUG = "none"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
