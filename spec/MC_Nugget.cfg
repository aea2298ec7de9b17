SPECIFICATION Spec
CONSTANTS
    MaxDim = 3
    Grid = 10
INVARIANTS InvGrad InvBase InvNugget
CHECK_DEADLOCK FALSE
