SPECIFICATION Spec
CONSTANTS NSlots = 2 NVals = 1 PROTO = "tmp"
INVARIANTS Durable Complete
ACTION_CONSTRAINT Log
VIEW View
CHECK_DEADLOCK FALSE
