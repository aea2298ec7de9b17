SPECIFICATION TourSpec
CONSTANTS FX = 2 DO = 2 FO = 2 DN = 2 FN = 1 DB = 1 BUG = "none"
VIEW View
CHECK_DEADLOCK FALSE
