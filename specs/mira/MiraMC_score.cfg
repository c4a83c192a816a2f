SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS What = "score"
 MaxLen = 4
 Words = {1,2,3}
 Gen = FALSE
INVARIANT Score
