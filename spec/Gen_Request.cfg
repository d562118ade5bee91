SPECIFICATION Spec
INVARIANTS First Emit
CHECK_DEADLOCK FALSE
