SPECIFICATION GSpec
CONSTANTS N = 4
 LENS = {1, 2}
 USERS = {1, 2}
 OPS = {"tr", "train", "init", "rel", "print"}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
