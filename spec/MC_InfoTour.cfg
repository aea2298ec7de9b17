SPECIFICATION TourSpec
CONSTANTS Slots = 3 Vals = 2 BUG = "none"
VIEW View
CHECK_DEADLOCK FALSE
