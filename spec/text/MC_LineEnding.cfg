SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS InvInfer InvNormalize InvNoLoss InvStable InvFinal
PROPERTY Latched
CHECK_DEADLOCK FALSE
