SPECIFICATION Spec
CONSTANTS
    MaxText = 3
    MaxOps = 3
INVARIANTS InvDisjoint InvApply InvApart InvOffsets InvSent Emit
CHECK_DEADLOCK FALSE
