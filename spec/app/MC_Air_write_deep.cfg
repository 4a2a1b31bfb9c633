SPECIFICATION MCSpec
CONSTANTS
  Known = {}
  Deep = TRUE
INVARIANTS Settles Spares
CHECK_DEADLOCK FALSE
