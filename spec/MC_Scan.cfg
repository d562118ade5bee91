SPECIFICATION Spec
CONSTANTS D = 1
 Hi = 2
 MaxLen = 4
 Strict = TRUE
INVARIANT PrefixAnswer
CHECK_DEADLOCK FALSE
