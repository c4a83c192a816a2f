SPECIFICATION MCSpec
CONSTANTS Src = {1, 2}
 Trg = {1, 2}
 Counts = {1, 2}
 MaxTotal = 2
 IncrOnly = FALSE
 Emit = TRUE
VIEW View
CONSTRAINTS Bound NonNeg
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS Closed
CHECK_DEADLOCK FALSE
