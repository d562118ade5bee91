SPECIFICATION Spec
CONSTANTS N = 2
 Reach = 6
 Threshold = "strip"
 Drift = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
