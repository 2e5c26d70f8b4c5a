SPECIFICATION GSpec
INVARIANT Emit
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxGuards = 4
  MaxActions = 3
  Depth = 5
