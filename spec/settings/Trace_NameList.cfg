SPECIFICATION TSpec
INVARIANTS Finished InvSorted
CHECK_DEADLOCK FALSE
