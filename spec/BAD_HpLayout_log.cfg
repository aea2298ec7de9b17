SPECIFICATION Spec
CONSTANTS MaxDim = 2 BUG = "log"
INVARIANTS BadRoundTrip
CHECK_DEADLOCK FALSE
