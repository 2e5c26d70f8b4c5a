SPECIFICATION Spec
INVARIANTS SumExact DifferenceExact Undone Trichotomy Monotone Rebased Counted ReadBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Rates = {1, 2, 3, 4, 6}
  Columns = {0, 30, 59}
  Hours = {0, 1}
