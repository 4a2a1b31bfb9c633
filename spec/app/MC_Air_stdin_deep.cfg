SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = TRUE
INVARIANTS StdinAgrees
CHECK_DEADLOCK FALSE
