SPECIFICATION Spec
CONSTANTS
  MaxChunks = 6
  Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
