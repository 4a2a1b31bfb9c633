SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = TRUE
INVARIANTS CheckPredicts
CHECK_DEADLOCK FALSE
