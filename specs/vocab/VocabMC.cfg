SPECIFICATION Spec
CONSTANTS Words = {"a","b","c","d"}
 Depth = 7
 Gen = FALSE
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
