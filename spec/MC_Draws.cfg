SPECIFICATION Spec
CONSTANTS M = 16
 Seed = 7
 Shared = FALSE
INVARIANTS Repeatable SizeAndRange
CHECK_DEADLOCK FALSE
