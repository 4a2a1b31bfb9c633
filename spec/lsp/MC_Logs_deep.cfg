SPECIFICATION Spec
CONSTANTS
    MaxSteps = 3
    Levels = {"none", "error", "warning", "loud", "wrong"}
    Rich = FALSE
INVARIANT Right
PROPERTY Fixed
CHECK_DEADLOCK FALSE
