SPECIFICATION TourSpec
CONSTANTS MODE = "none" Depth = 1
ACTION_CONSTRAINT Log
CHECK_DEADLOCK FALSE
