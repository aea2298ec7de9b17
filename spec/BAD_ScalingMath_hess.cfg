SPECIFICATION Spec
CONSTANTS BUG = "hess"
INVARIANTS Derivatives RoundTrip Constraints
CHECK_DEADLOCK FALSE
