SPECIFICATION Spec
CONSTANTS Ns = {1,2,3}
 Vals = {0,1,2}
 Max = 8
 P = 1
 Q = 7
 Gen = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
