SPECIFICATION Spec
CONSTANTS Ks = {1}
 Xs = {1}
 Vs = {1}
 Ns = {0,1,2}
 Maxes <- AllMax
 Gen = TRUE
 MaxLen = 5
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
