SPECIFICATION Spec
CONSTANTS NSlots = 2 NVals = 1 PROTO = "inplace"
INVARIANTS Durable Complete
PROPERTIES Backup RoundTrip
CHECK_DEADLOCK FALSE
