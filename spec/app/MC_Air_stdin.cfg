SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = FALSE
INVARIANTS StdinAgrees
CHECK_DEADLOCK FALSE
