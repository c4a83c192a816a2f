SPECIFICATION MCSpec
CONSTANTS States = {1, 2, 3}
 ClassesOf <- Cls
 Scores = {1, 2}
 Maxes = {0, 1, 2}
 Emit = TRUE
 MaxLen = 9
VIEW GView
CONSTRAINT Short
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS OnePerState IndexesDistinct Bounded
CHECK_DEADLOCK FALSE
