SPECIFICATION Spec
CONSTANTS
  MaxChunks = 5
  Rich = FALSE
INVARIANTS InvAgrees InvPhases InvExclusive
CHECK_DEADLOCK FALSE
