SPECIFICATION Spec
INVARIANTS InvOneServer InvWhole InvBusy InvPath InvInOrder InvLeftovers InvTrust InvRuns Root1 InvUserOnly InvActive InvCursor InvFormat InvKept InvAgain InvSettings
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "life"
  MaxSteps = 7
