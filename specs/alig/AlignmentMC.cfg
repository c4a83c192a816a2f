SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes
 Gen = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
