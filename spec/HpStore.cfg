SPECIFICATION Spec
CONSTANTS NSlots = 2 NVals = 2 PROTO = "tmp"
INVARIANTS Durable Complete
PROPERTIES Backup RoundTrip
CHECK_DEADLOCK FALSE
