SPECIFICATION Spec
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 4
  Deep = FALSE
