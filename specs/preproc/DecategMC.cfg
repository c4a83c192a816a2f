SPECIFICATION Spec
CONSTANTS MaxLen = 4 Vocab = "small"
INVARIANTS Restored Kept Idem
CHECK_DEADLOCK FALSE
