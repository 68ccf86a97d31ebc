SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS ZSet <- Z8  Depth = 5  Generate = TRUE
INVARIANT Inv
ACTION_CONSTRAINT Emit
