SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes
 Maxes = {1,2,3}
 Gen = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
