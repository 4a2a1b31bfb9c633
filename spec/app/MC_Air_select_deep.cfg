SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = TRUE
INVARIANTS Spares OrderFree
CHECK_DEADLOCK FALSE
