SPECIFICATION Spec
CONSTANTS MaxIt = 4  D = {0, 2, 3, 4}  BUG = "cond_stays"
INVARIANTS Together Consistent Least NoMore 

CHECK_DEADLOCK FALSE
