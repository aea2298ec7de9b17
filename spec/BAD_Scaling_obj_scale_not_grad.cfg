SPECIFICATION Spec
CONSTANTS FX = 1 DO = 2 FO = 1 DN = 2 FN = 1 DB = 2 BUG = "obj_scale_not_grad"
INVARIANTS NoMix
VIEW View
CHECK_DEADLOCK FALSE
