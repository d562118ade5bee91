SPECIFICATION Spec
CONSTANTS Hi = 2
 MaxLen = 4
 MaxQs = 1
 Filter = "closed"
 Rule = "half"
INVARIANTS EvenOdd SameAsSingle ExtentsTight Declines Theorems Degenerate
CHECK_DEADLOCK FALSE
