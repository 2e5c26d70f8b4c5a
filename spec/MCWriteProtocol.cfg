SPECIFICATION Spec
INVARIANTS NeverPartial OkMeansNew FaultsAreReported
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 9
  Buffer = 3
