SPECIFICATION Spec
CONSTANTS NMax = 2 Depth = 2 Dim = 2 UseGrad = TRUE
INVARIANTS BaseValid OneChange Log
CHECK_DEADLOCK FALSE
VIEW View
