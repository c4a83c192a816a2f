SPECIFICATION GSpec
CONSTANTS CONNS = {1, 2, 3, 4}
 OPS = {"ask", "junk", "end"}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
