SPECIFICATION Spec
INVARIANT Inv
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS Gen = FALSE
MaxLen = 9
What = "sched"
