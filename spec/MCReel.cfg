SPECIFICATION Spec
INVARIANTS KeysReach NothingElse OpenRight
CHECK_DEADLOCK FALSE
CONSTANTS
  Contents = {1, 2, 3}
  Encrypted = {1, 2}
  MaxMessages = 4
  MaxFinds = 3
  Remember = TRUE
  Messages <- MessagesMC
