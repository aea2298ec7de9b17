SPECIFICATION Spec
CONSTANTS MaxDim = 3
INVARIANTS Partition Present RoundTrip Consistent Log
CHECK_DEADLOCK FALSE
