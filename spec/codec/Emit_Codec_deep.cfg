SPECIFICATION Spec
CONSTANTS Known = {}
 Frames = 3
 Sizes = {}
 Kinds = {"one", "typed", "spaced", "tricky", "empty", "json", "utf8", "length", "type", "other", "three", "third", "junk", "word"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
