SPECIFICATION TextSpec
CONSTANTS Depth = 0
 Values = {"1"}
 Alphabet = {39, 32, 10, 97, 98}
 Length = 6
INVARIANTS SameWords
CHECK_DEADLOCK FALSE
