SPECIFICATION Spec
CONSTANTS Lo = 3 Hi = 9 MinV = 0 MaxV = 12 LhsF = 1 BoxF = 3 Win = 3 MaxIter = 4 InitV = 1 BUG = "all"
INVARIANTS InRange Nested Ordered Contains Recent
CHECK_DEADLOCK FALSE
