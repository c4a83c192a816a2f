SPECIFICATION Spec
CONSTANTS N = 2
 LENS = {1, 2}
 USERS = {1, 2}
 OPS = {"tr", "train", "init", "rel", "print"}
INVARIANTS Exclusive OneUserAtATime Stable
PROPERTY Ends
CHECK_DEADLOCK TRUE
