SPECIFICATION TreeSpec
CONSTANTS Depth = 5
 Values = {"1"}
 Alphabet = {}
 Length = 0
INVARIANTS Wellformed
PROPERTIES Gone
CHECK_DEADLOCK FALSE
