SPECIFICATION Spec
INVARIANTS ItIsATree EveryCall
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  MaxNodes = 3
