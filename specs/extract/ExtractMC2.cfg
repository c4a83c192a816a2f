SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes2
 Maxes = {2,4}
 Gen = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
