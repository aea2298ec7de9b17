SPECIFICATION Spec
CONSTANTS N = 2 NData = 2 NHp = 1 NOpt = 1 MaxLen = 4 BUG = "options_on_class"
INVARIANTS AsIfAlone StateOfItsOwn
PROPERTY Untouched
CHECK_DEADLOCK FALSE
