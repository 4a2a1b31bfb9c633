SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS InvWalk InvClean InvIdempotent InvRoundTrip InvRelative InvEscape InvExt
CHECK_DEADLOCK FALSE
