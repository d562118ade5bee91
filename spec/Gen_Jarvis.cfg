SPECIFICATION GSpec
CONSTANTS Hi = 2
 MaxLen = 5
 Guard = TRUE
 Rounding = FALSE
 StopAt = "any"
INVARIANT Emit
CHECK_DEADLOCK FALSE
