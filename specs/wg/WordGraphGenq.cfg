SPECIFICATION MCSpec
CONSTANTS MaxState = 3
 MaxArcs = 3
 MaxOps = 1
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS Ordered
CHECK_DEADLOCK FALSE
