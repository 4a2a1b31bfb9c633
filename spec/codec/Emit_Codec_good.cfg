SPECIFICATION Spec
CONSTANTS Known = {}
 Frames = 3
 Sizes = {}
 Kinds = {"one", "typed", "spaced", "tricky", "empty"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
