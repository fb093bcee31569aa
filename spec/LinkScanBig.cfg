SPECIFICATION Spec
CONSTANTS
  MaxT = 11
  Slots = 4
  MaxObs = 6
  MaxPerNight = 3
  MaxX = 1
  NObs = {2, 3}
  MinSep = {0}
  MaxDt = {2}
  Windows = {2}
  NLinks = {1, 2, 3}
INVARIANT ScanIsDefinition
PROPERTY FoundIsFinal
CHECK_DEADLOCK FALSE
