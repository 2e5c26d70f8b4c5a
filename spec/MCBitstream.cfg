SPECIFICATION Spec
INVARIANTS InOrder Forms Detects Single
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 3
  MaxBits = 10
  Polys = {1, 3, 4, 5}
