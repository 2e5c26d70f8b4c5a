SPECIFICATION Spec
INVARIANTS Canonicalised Plain
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  MaxNodes = 3
