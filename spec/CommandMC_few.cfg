SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Acts <- ActsFew  Depth = 2  Workers <- W5  Generate = FALSE
INVARIANT Inv
PROPERTY Terminates
