SPECIFICATION GSpec
VIEW GView
CONSTANTS D = 2
 MaxSize = 3
 Lo = 0
 Hi = 2
 Margin = 1
 SkipRule = "sound"
CONSTRAINT Bound
INVARIANT Emit
CHECK_DEADLOCK FALSE
