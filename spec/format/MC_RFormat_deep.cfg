SPECIFICATION Spec
CONSTANTS
  MaxGaps = 2
  Counts = {1, 2}
  Widths2 = {12, 24, 80}
  Part = 0
  Parts = 1
INVARIANTS Invariant Emit
