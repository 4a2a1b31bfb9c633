SPECIFICATION Spec
CONSTANTS Depth = 7
 Values = {"1", ""}
 Alphabet = {}
 Length = 0
INVARIANTS Restored Stacks
CHECK_DEADLOCK FALSE
