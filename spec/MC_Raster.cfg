SPECIFICATION Spec
CONSTANTS N = 2
 Reach = 12
 Threshold = "strip"
 Drift = 0
INVARIANTS OnIdeal Connected Complete ErrIsLag Unique
PROPERTY Finishes
CHECK_DEADLOCK FALSE
