SPECIFICATION Spec
CONSTANTS
  MaxChunks = 4
  Rich = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
