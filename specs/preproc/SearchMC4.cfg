SPECIFICATION Spec
CONSTANTS MaxToks = 4
INVARIANTS Optimal Found Falling
CHECK_DEADLOCK FALSE
