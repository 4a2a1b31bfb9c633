SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = FALSE
INVARIANTS Spares OrderFree
CHECK_DEADLOCK FALSE
