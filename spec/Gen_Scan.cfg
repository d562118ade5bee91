SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS D = 1
 Hi = 2
 MaxLen = 4
 Strict = TRUE
