SPECIFICATION MCSpec
CONSTANTS Costs = {1, 2, 3, 4}
 Strs = {97, 98}
 Words = {}
 MaxWords = 0
 Mode = "chr"
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitBehaviour
INVARIANTS ChrRight
CHECK_DEADLOCK FALSE
