SPECIFICATION Spec
CONSTANTS Grid15 = 2
 Stops = 2
 Formula = "haversine"
INVARIANT Emit
CHECK_DEADLOCK FALSE
