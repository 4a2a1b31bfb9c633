SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  Small = TRUE
  Prefixed = TRUE
INVARIANTS InvShape InvRoundTrip InvDefined InvError InvLeaves InvLexed
CHECK_DEADLOCK FALSE
