SPECIFICATION Spec
CONSTANTS N = 3
 LENS = {1}
 USERS = {1, 2}
 OPS = {"tr", "train", "init", "rel", "print"}
INVARIANTS Exclusive OneUserAtATime Stable
PROPERTY Ends
CHECK_DEADLOCK TRUE
