SPECIFICATION MCSpec
CONSTANTS Costs = {1, 2, 3, 4}
 Strs = {97, 98}
 Words <- W3
 MaxWords = 2
 Mode = "wrd"
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS WrdRight CorRight
CHECK_DEADLOCK FALSE
