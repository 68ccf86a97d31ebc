CONSTANTS
  Starts <- SFew
  Span = 4
  Generate = TRUE
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
