SPECIFICATION Spec
CONSTANTS W = {"a","b"}
 MaxLen = 2
 MaxCs = 2
 Gen = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
