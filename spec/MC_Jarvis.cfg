SPECIFICATION Spec
CONSTANTS Hi = 2
 MaxLen = 5
 Guard = TRUE
 Rounding = FALSE
 StopAt = "any"
INVARIANTS Correct Bounded NoDeadEnd
PROPERTY Finishes
CHECK_DEADLOCK FALSE
