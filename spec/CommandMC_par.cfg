SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Acts <- ActsPar  Depth = 3  Workers <- W1  Generate = TRUE
INVARIANT Inv
ACTION_CONSTRAINT Emit
