SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS InvPlace InvOrder InvTokens InvMaximal
CHECK_DEADLOCK FALSE
