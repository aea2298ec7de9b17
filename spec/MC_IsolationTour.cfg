SPECIFICATION TourSpec
CONSTANTS N = 2 NData = 2 NHp = 2 NOpt = 1 MaxLen = 4 BUG = "none"
ACTION_CONSTRAINT Log
VIEW View
CHECK_DEADLOCK FALSE
