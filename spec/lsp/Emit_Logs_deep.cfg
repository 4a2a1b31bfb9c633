SPECIFICATION Spec
CONSTANTS
    MaxSteps = 2
    Levels = {"none", "debug", "warn", "wrong"}
    Rich = FALSE
INVARIANT Right Emit
CHECK_DEADLOCK FALSE
