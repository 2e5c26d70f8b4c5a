SPECIFICATION Spec
INVARIANTS OnePass NothingUnsafe PlainCopy Ignored
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Alphabet = {37, 99, 100, 47}
  Keys = {99, 37}
  Values <- MCValues
  Suffixes <- MCSuffixes
