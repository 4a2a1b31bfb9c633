SPECIFICATION TSpec
INVARIANTS Finished InvSortedT
CHECK_DEADLOCK FALSE
