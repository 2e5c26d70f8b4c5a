SPECIFICATION Spec
INVARIANTS One Leak Path DeadSlots ClosedOnce Bounded
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {1, 2}
  MaxHandles = 1
  Modes = {"r", "w", "a", "r+", "w+"}
  IO = TRUE
