SPECIFICATION TSpec
INVARIANTS Finished
CHECK_DEADLOCK FALSE
