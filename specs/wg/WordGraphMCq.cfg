SPECIFICATION MCSpec
CONSTANTS MaxState = 3
 MaxArcs = 3
 MaxOps = 1
 Emit = FALSE
VIEW View
INVARIANTS Ordered BestIsDP RestIsDP SaveKeepsPaths UsefulKeepsPaths PruneKeepsBest
CHECK_DEADLOCK FALSE
