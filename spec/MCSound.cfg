SPECIFICATION Spec
INVARIANTS Kept InUnits Complete Identified Tagged
CHECK_DEADLOCK FALSE
CONSTANTS
  Lengths = {1, 2, 3, 4, 5, 7}
  MaxRows = 30
  Rates = {24, 48, 96}
  ByUnit = FALSE
  Keep = TRUE
