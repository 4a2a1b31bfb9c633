SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Small = FALSE
  Prefixed = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
