SPECIFICATION Spec
CONSTANTS Slots = 3 Vals = 2 BUG = "written"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
