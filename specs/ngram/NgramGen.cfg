SPECIFICATION Spec
CONSTANTS
 Words = {"a", "b"}
 MaxLen2 = 2
 Order = 3
 Calls = 2
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
