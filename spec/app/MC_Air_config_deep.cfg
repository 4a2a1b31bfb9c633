SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = TRUE
INVARIANTS Independent OrderFree
CHECK_DEADLOCK FALSE
