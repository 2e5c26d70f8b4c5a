SPECIFICATION Spec
INVARIANTS CoreKept MetaKept Settled
CHECK_DEADLOCK FALSE
CONSTANTS
  Langs = {"a", "b"}
  MaxLangs = 2
  Everywhere = TRUE
