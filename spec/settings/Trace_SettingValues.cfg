SPECIFICATION TSpec
INVARIANTS Finished TypeOK
CHECK_DEADLOCK FALSE
