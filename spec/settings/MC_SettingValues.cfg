SPECIFICATION Spec
CONSTANTS
  Numbers = {0, 1, 24, 25, 320, 321, 80}
  Steps = 4
INVARIANTS TypeOK InvTable InvBounds
CHECK_DEADLOCK FALSE
