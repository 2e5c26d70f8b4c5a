SPECIFICATION Spec
INVARIANTS Decodable Steady Boundary Magnitudes Balanced
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxData = 2
  MaxSamples = 9
