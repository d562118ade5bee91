SPECIFICATION Spec
CONSTANTS Grid15 = 2
 Stops = 2
 Formula = "haversine"
INVARIANTS IsChord InRange Symmetric Same Antipodes Turns IsHeading Mirror Detour
CHECK_DEADLOCK FALSE
