SPECIFICATION Spec
CONSTANTS Ns = {1,2,3}
 Vals = {0,1,2,3}
 Max = 9
 P = 1
 Q = 7
 Gen = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
