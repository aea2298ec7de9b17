SPECIFICATION Spec
CONSTANTS NData = 2 NHp = 1 NSlots = 2 NDirs = 1 Scaling = TRUE BUG = "scaling_not_restored"
INVARIANTS NeverStale Agrees ScalingFits Available
PROPERTIES Isolated Recall Harmless
CHECK_DEADLOCK FALSE
