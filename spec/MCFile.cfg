SPECIFICATION Spec
INVARIANTS One Leak Path DeadSlots ClosedOnce Bounded
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {1, 2, 3}
  MaxHandles = 3
  Modes = {"r", "w"}
  IO = FALSE
