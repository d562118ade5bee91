SPECIFICATION Spec
CONSTANTS D = 2
 N = 2
 SrcHi = 2
 Extra = 0
 TgtHi = 2
 Shifts = {0, 1, 4}
 Budgets = {1, 2, 3}
 Absolutes = {0, 3001}
 Intervals = {1, 2501}
 Variant = "ok"
INVARIANTS Optimal Criterion Proper TrueResidual Descending Numbered Stops Recovers
PROPERTY Returns
CHECK_DEADLOCK FALSE
