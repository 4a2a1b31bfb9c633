SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  Names = {2, 3}
  Depth = 2
  Values = {1}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
