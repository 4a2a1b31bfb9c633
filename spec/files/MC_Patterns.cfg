SPECIFICATION Spec
CONSTANTS
  MaxLines = 2
  Depth = 2
INVARIANTS InvWalk InvEntered InvBelow InvMonotone InvOrder InvRoot InvRFiles
CHECK_DEADLOCK FALSE
