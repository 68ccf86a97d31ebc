SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS ZSet <- Z4  Depth = 10  Generate = FALSE
INVARIANT Inv
