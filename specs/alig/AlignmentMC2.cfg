SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes2
 Gen = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
