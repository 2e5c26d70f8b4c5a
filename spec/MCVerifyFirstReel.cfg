SPECIFICATION Spec
INVARIANTS Clean Each Both
CHECK_DEADLOCK FALSE
ALIAS Shown
CONSTANT SubTrack <- OnlyAfterFirst
