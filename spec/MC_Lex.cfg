SPECIFICATION Spec
CONSTANTS D = 2
 Codes = {0, 1, 2, 1000000}
 MaxLen = 3
 CheckFirst = TRUE
INVARIANTS Permutation DoneSorted Untouched
PROPERTY Finishes
CHECK_DEADLOCK FALSE
