SPECIFICATION Spec
CONSTANTS NData = 2 NHp = 2 NSlots = 2 NDirs = 1 Scaling = TRUE BUG = "none"
INVARIANTS NeverStale Agrees ScalingFits Available
PROPERTIES Isolated Recall Harmless
CHECK_DEADLOCK FALSE
