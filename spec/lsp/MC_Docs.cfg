SPECIFICATION Spec
VIEW View
CONSTANTS
    MaxText = 2
    MaxBatch = 3
    MaxInsert = 1
    MaxNotes = 1
INVARIANT Synced Fresh Above
CHECK_DEADLOCK FALSE
