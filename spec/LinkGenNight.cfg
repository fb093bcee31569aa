SPECIFICATION Spec
CONSTANTS
  MaxT = 5
  Slots = 6
  MaxObs = 6
  MaxPerNight = 6
  MaxX = 2
  NObs = {2, 3, 4}
  MinSep = {1}
  MaxDt = {3, 6}
  Windows = {1}
  NLinks = {1}
INVARIANT ScanIsDefinition
INVARIANT Emit
CHECK_DEADLOCK FALSE
