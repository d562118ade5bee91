SPECIFICATION Spec
CONSTANTS D = 2
 MaxSize = 4
 Lo = 0
 Hi = 2
 Margin = 1
 SkipRule = "sound"
CONSTRAINT Bound
INVARIANTS Refines Ordered Closed NearestRefines EditKeepsOrdered
CHECK_DEADLOCK FALSE
