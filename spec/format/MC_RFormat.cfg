SPECIFICATION Spec
CONSTANTS
  MaxGaps = 1
  Counts = {1, 2, 4}
  Widths2 = {12, 80}
  Part = 0
  Parts = 1
INVARIANTS Invariant Emit
