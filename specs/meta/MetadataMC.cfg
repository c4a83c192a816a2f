SPECIFICATION Spec
CONSTANTS W = {"a","b"}
 MaxLen = 4
 MaxCs = 2
 Gen = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
