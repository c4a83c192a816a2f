SPECIFICATION MCSpec
CONSTANTS Vocab <- V2
 MaxLen = 3
 Kmax = 2
 Graphs = {1, 2, 3}
 Emit = FALSE
VIEW View
INVARIANTS FromScratch Optimal ColumnsByTag Extends
CHECK_DEADLOCK FALSE
