SPECIFICATION Spec
CONSTANTS Shapes <- GenShapes
 Gen = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
