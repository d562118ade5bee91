SPECIFICATION GSpec
CONSTANTS MaxOps = 4
 Budgets = {2}
 Absolutes = {0, 2}
 Intervals = {2}
 Variant = "ok"
 Walks = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
