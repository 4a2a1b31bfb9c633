SPECIFICATION Spec
VIEW View
INVARIANTS InvNeverBroken InvOnce InvUpToDate InvClosest InvApart InvAgain
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 8
  Deep = TRUE
