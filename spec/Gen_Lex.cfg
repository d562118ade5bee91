SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS D = 2
 Codes = {0, 1, 2, 1000000}
 MaxLen = 3
 CheckFirst = TRUE
