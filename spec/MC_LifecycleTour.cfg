SPECIFICATION TourSpec
CONSTANTS NData = 2 NHp = 2 NSlots = 2 NDirs = 1 Scaling = TRUE BUG = "none"
INVARIANTS NeverStale ScalingFits
ACTION_CONSTRAINT Log
VIEW View
CHECK_DEADLOCK FALSE
