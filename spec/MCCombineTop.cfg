SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4}
  Texts = {3, 4}
  Names = {"p", "q"}
  Dirs = {1, 2}
INVARIANTS Untouched

CHECK_DEADLOCK FALSE
CONSTANT Folder <- Top
CONSTANT Free <- AsItIs
