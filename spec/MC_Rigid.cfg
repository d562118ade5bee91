SPECIFICATION Spec
CONSTANTS Reach = 2
 Turns = 4
INVARIANTS AlwaysProper ComplexProper ShapeKept
CHECK_DEADLOCK FALSE
