SPECIFICATION TourSpec
CONSTANTS FX = 1 DO = 1 FO = 1 DN = 1 FN = 1 DB = 1 BUG = "none"
VIEW View
CHECK_DEADLOCK FALSE
