SPECIFICATION Spec
CONSTANTS
  MaxT = 8
  Slots = 3
  MaxObs = 4
  MaxPerNight = 3
  MaxX = 1
  NObs = {1, 2, 3}
  MinSep = {0}
  MaxDt = {2, 3}
  Windows = {1, 2, 3}
  NLinks = {1, 2, 3}
INVARIANT ScanIsDefinition
INVARIANT Emit
CHECK_DEADLOCK FALSE
