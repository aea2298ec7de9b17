SPECIFICATION Spec
CONSTANTS BUG = "lincon"
INVARIANTS Derivatives RoundTrip Constraints
CHECK_DEADLOCK FALSE
