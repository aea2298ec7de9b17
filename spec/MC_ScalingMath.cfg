SPECIFICATION Spec
CONSTANTS BUG = "none"
INVARIANTS Derivatives RoundTrip Constraints
CHECK_DEADLOCK FALSE
