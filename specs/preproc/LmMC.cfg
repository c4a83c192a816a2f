SPECIFICATION Spec
CONSTANTS MaxSents = 2 MaxLen = 3 N = 3
INVARIANTS Same Total Proper
CHECK_DEADLOCK FALSE
