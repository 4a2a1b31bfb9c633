SPECIFICATION Spec
CONSTANTS
  MaxChunks = 5
  Rich = TRUE
INVARIANTS InvAgrees InvPhases InvExclusive
CHECK_DEADLOCK FALSE
