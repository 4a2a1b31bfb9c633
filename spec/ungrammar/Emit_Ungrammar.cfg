SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Small = FALSE
  Prefixed = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
