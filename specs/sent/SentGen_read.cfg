SPECIFICATION Spec
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Gen = TRUE
MaxLen = 5
What = "read"
