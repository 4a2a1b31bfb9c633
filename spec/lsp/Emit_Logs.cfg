SPECIFICATION Spec
CONSTANTS
    MaxSteps = 1
    Levels = {"none", "error", "warning", "loud", "wrong"}
    Rich = TRUE
INVARIANT Right Emit
CHECK_DEADLOCK FALSE
