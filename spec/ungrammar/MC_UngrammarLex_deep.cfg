SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS InvPlace InvOrder InvTokens InvMaximal
CHECK_DEADLOCK FALSE
