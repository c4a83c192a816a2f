SPECIFICATION MCSpec
CONSTANTS Src = {1, 2}
 Trg = {1, 2}
 Counts = {1, 2}
 MaxTotal = 4
 IncrOnly = TRUE
 Emit = FALSE
VIEW View
CONSTRAINTS Bound NonNeg
INVARIANTS MarginalsInv Closed
CHECK_DEADLOCK FALSE
