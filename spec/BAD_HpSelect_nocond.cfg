SPECIFICATION Spec
CONSTANTS MaxN = 3 Conds = {1, 11, 13, 20} Lkds = {1, 2} BUG = "nocond"
INVARIANTS Some Never Best Legal 
CHECK_DEADLOCK FALSE
