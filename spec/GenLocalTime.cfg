INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Years = {}
  Dates = {}
  Times = {}
  Offs = {}
  PairDates = {}
  PairTimes = {}
  PairOffs = {}
  Amounts = {}
