SPECIFICATION TSpec
INVARIANTS Finished
CHECK_DEADLOCK FALSE
CONSTANT Known <- KnownSet
