SPECIFICATION Spec
VIEW View
CONSTANTS
    MaxText = 3
    MaxBatch = 2
    MaxInsert = 1
    MaxNotes = 1
INVARIANT Synced Folded Emit
CHECK_DEADLOCK FALSE
