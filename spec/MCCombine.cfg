SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4}
  Texts = {3, 4}
  Names = {"p", "q"}
  Dirs = {1, 2}
INVARIANTS Untouched Kept Distinct NothingElse
PROPERTY All
CHECK_DEADLOCK FALSE
