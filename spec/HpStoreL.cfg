SPECIFICATION Spec
CONSTANTS NSlots = 3 NVals = 2 PROTO = "tmp"
INVARIANTS Durable Complete
PROPERTIES Backup RoundTrip
CHECK_DEADLOCK FALSE
