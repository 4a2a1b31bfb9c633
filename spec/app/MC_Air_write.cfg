SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = FALSE
INVARIANTS Settles Spares
CHECK_DEADLOCK FALSE
