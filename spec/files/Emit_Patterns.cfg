SPECIFICATION Spec
CONSTANTS
  MaxLines = 1
  Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
