SPECIFICATION Spec
CONSTANTS Shapes <- GenShapes
 Maxes = {1,2,3}
 Gen = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
