SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Budgets = {1, 2}
 Absolutes = {0, 1}
 Intervals = {1}
 Variant = "ok"
INVARIANTS LastWrite Built
PROPERTY Persistent
CHECK_DEADLOCK FALSE
