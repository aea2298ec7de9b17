SPECIFICATION Spec
CONSTANTS BUG = "grad"
INVARIANTS Derivatives RoundTrip Constraints
CHECK_DEADLOCK FALSE
