SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  Names = {2, 3}
  Depth = 2
  Values = {1, 2}
INVARIANTS InvSorted InvClosest InvMatches InvLocal
CHECK_DEADLOCK FALSE
