SPECIFICATION Spec
CONSTANTS FX = 2 DO = 2 FO = 2 DN = 2 FN = 1 DB = 2 BUG = "none"
INVARIANTS NoMix
VIEW View
CHECK_DEADLOCK FALSE
