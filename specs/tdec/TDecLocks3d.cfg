SPECIFICATION Spec
CONSTANTS N = 3
 LENS = {1, 2}
 USERS = {1, 2}
 OPS = {"tr", "train", "rel"}
INVARIANTS Exclusive OneUserAtATime Stable
PROPERTY Ends
CHECK_DEADLOCK TRUE
