SPECIFICATION Spec
CONSTANTS
  Objs = {a, b}
  Vals = {0, 1, 2}
  MaxRows = 3
INVARIANT ObjectwiseIsWhole
INVARIANT WholeObjects
INVARIANT NothingWhenOff
CHECK_DEADLOCK FALSE
