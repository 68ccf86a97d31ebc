CONSTANTS
  Starts <- SFew
  Span = 4
  Generate = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
