CONSTANTS
  Starts <- SAll
  Span = 6
  Generate = TRUE
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
