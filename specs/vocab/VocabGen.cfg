SPECIFICATION Spec
CONSTANTS Words = {"a","b"}
 Depth = 4
 Gen = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
