SPECIFICATION Spec
CONSTANTS Ks = {1,2}
 Xs = {1,2}
 Vs = {1,2}
 Ns = {0,1,2}
 Maxes <- AllMax
 Gen = FALSE
 MaxLen = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
