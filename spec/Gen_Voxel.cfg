SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS D = 2
 Lo = 2
 Hi = 2
 MaxLen = 2
 S = 2
 Rounding = "floor"
