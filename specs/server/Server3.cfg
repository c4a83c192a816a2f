SPECIFICATION Spec
CONSTANTS CONNS = {1, 2, 3}
 OPS = {"ask", "junk", "end"}
INVARIANTS NotCleared AtMostOne Threads Complete
PROPERTIES Answered AnsweredIfAccepted Ends
CHECK_DEADLOCK TRUE
