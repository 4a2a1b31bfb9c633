SPECIFICATION Spec
VIEW View
INVARIANT EmitTold
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 5
  Deep = FALSE
