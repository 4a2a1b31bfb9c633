SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
