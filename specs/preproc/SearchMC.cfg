SPECIFICATION Spec
CONSTANTS MaxToks = 3
INVARIANTS Optimal Found Falling
CHECK_DEADLOCK FALSE
