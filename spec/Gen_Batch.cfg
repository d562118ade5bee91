SPECIFICATION GSpec
CONSTANTS Hi = 2
 MaxLen = 3
 MaxQs = 1
 Filter = "closed"
 Rule = "half"
INVARIANT Emit
CHECK_DEADLOCK FALSE
