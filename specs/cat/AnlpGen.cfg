SPECIFICATION MCSpec
CONSTANTS Vocab <- V2
 MaxLen = 3
 Kmax = 3
 Graphs = {1, 2, 3}
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS FromScratch
CHECK_DEADLOCK FALSE
