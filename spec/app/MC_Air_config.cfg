SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = FALSE
INVARIANTS Independent OrderFree
CHECK_DEADLOCK FALSE
