SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  Names = {2, 3}
  Depth = 3
  Values = {1}
INVARIANTS InvSorted InvClosest InvMatches InvLocal
CHECK_DEADLOCK FALSE
