CONSTANTS
  Starts <- SAll
  Span = 6
  Generate = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
