SPECIFICATION Spec
CONSTANTS Depth = 6
 Values = {"1", ""}
 Alphabet = {}
 Length = 0
INVARIANTS Restored Stacks
CHECK_DEADLOCK FALSE
