SPECIFICATION Spec
CONSTANTS Known = {}
 Frames = 3
 Sizes = {1, 2, 7, 13, 20, 21, 22, 30, 60}
 Kinds = {"one", "typed", "spaced", "tricky", "empty", "json", "utf8", "length", "type", "other", "three", "third", "junk", "word"}
INVARIANTS Prompt Clean
CHECK_DEADLOCK FALSE
