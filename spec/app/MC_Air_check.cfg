SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = FALSE
INVARIANTS CheckPredicts
CHECK_DEADLOCK FALSE
