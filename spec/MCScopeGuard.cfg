SPECIFICATION Spec
INVARIANTS AtMostOnce NeverIfCancelled OneHolder RunAtEnd
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxGuards = 4
  MaxActions = 3
