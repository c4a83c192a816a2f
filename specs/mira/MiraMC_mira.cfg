SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS What = "mira"
 MaxLen = 4
 Words = {1,2,3}
 Gen = FALSE
INVARIANT Whole
PROPERTY Steps
