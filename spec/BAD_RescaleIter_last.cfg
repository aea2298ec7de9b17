SPECIFICATION Spec
CONSTANTS MaxIt = 4  D = {0, 2, 3, 4}  BUG = "last"
INVARIANTS Together Consistent Least NoMore 

CHECK_DEADLOCK FALSE
