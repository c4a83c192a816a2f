SPECIFICATION MCSpec
CONSTANTS States = {1, 2, 3}
 ClassesOf <- Cls
 Scores = {1, 2, 3}
 Maxes = {1, 2}
 Emit = FALSE
 MaxLen = 8
VIEW View
CONSTRAINT Short
INVARIANTS OnePerState ScoreKnown IndexesDistinct Bounded BestNeverLost BestPerClass
CHECK_DEADLOCK FALSE
