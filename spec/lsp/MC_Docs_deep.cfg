SPECIFICATION Spec
VIEW View
CONSTANTS
    MaxText = 2
    MaxBatch = 2
    MaxInsert = 1
    MaxNotes = 2
INVARIANT Synced Fresh Above
CHECK_DEADLOCK FALSE
