SPECIFICATION Spec
CONSTANTS MaxDim = 2 BUG = "shift"
INVARIANTS BadRoundTrip
CHECK_DEADLOCK FALSE
