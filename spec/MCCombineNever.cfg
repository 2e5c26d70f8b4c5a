SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Texts = {3}
  Names = {"p", "q"}
  Dirs = {1, 2}
INVARIANTS Untouched Kept Distinct NothingElse

CHECK_DEADLOCK FALSE
CONSTANT Known <- Never
