SPECIFICATION Spec
CONSTANTS Hi = 2
 MinLen = 0
 MaxLen = 4
 DoSort = TRUE
 PopOn = "leq"
INVARIANTS Correct ChainConvex
PROPERTY Finishes
CHECK_DEADLOCK FALSE
