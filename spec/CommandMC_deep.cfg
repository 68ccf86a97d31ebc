SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Acts <- ActsAll  Depth = 2  Workers <- W5  Generate = FALSE
INVARIANT Inv
