SPECIFICATION Spec
CONSTANTS MaxLen = 6 Vocab = "big"
INVARIANT Restored
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
