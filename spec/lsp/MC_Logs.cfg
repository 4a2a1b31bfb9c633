SPECIFICATION Spec
CONSTANTS
    MaxSteps = 2
    Levels = {"none", "error", "warning", "loud", "wrong"}
    Rich = TRUE
INVARIANT Right
PROPERTY Fixed
CHECK_DEADLOCK FALSE
