SPECIFICATION Spec
CONSTANTS MaxN = 4 Conds = {1, 11, 13, 20} Lkds = {1, 2} BUG = "none"
INVARIANTS Some Never Best Legal Log
CHECK_DEADLOCK FALSE
