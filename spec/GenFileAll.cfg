SPECIFICATION GSpec
INVARIANT Emit
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {1, 2}
  MaxHandles = 3
  Modes = {"r", "w"}
  IO = FALSE
  Depth = 6
