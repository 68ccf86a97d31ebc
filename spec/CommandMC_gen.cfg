SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Acts <- ActsAll  Depth = 2  Workers <- W1  Generate = TRUE
INVARIANT Inv
ACTION_CONSTRAINT Emit
