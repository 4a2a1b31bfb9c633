SPECIFICATION TSpec
INVARIANT Finished
CHECK_DEADLOCK FALSE
