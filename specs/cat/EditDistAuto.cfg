SPECIFICATION MCSpec
CONSTANTS Costs = {1, 2, 4}
 Strs = {97, 98}
 Words <- W4
 MaxWords = 2
 Mode = "auto"
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS RowsRight
CHECK_DEADLOCK FALSE
