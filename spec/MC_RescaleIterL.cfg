SPECIFICATION Spec
CONSTANTS MaxIt = 6  D = {0, 2, 3, 4}  BUG = "none"
INVARIANTS Together Consistent Least NoMore Log
PROPERTY Ends
CHECK_DEADLOCK FALSE
