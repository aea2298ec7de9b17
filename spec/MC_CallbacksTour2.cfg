SPECIFICATION TourSpec
CONSTANTS MODE = "none" Depth = 2
ACTION_CONSTRAINT Log
CHECK_DEADLOCK FALSE
