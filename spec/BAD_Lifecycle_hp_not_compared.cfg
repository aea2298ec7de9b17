SPECIFICATION Spec
CONSTANTS NData = 2 NHp = 1 NSlots = 2 NDirs = 1 Scaling = TRUE BUG = "hp_not_compared"
INVARIANTS NeverStale Agrees ScalingFits Available
PROPERTIES Isolated Recall Harmless
CHECK_DEADLOCK FALSE
