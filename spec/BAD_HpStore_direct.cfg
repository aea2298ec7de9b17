SPECIFICATION Spec
CONSTANTS NSlots = 2 NVals = 1 PROTO = "direct"
INVARIANTS Durable Complete
PROPERTIES Backup RoundTrip
CHECK_DEADLOCK FALSE
