SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxLen = 5
INVARIANTS InvSorted InvAnswer InvSort
PROPERTY Terminates
CHECK_DEADLOCK FALSE
