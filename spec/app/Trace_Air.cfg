SPECIFICATION TSpec
CONSTANT Known <- KnownSet
INVARIANT Finished
CHECK_DEADLOCK FALSE
