SPECIFICATION Spec
INVARIANTS CalendarOK TextOK OrderOK CalcOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Years <- MCYearsAll
  Dates <- MCDates
  Times <- MCTimes
  Offs <- MCOffs
  PairDates <- MCPairDates
  PairTimes <- MCPairTimes
  PairOffs <- MCPairOffs
  Amounts <- MCAmounts
