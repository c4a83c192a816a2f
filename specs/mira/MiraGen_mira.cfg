SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS What = "mira"
 MaxLen = 3
 Words = {1,2,3}
 Gen = TRUE
ACTION_CONSTRAINT Emit
