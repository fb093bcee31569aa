SPECIFICATION Spec
CONSTANTS
  Filters = {1, 2, 3}
  Main = 1
  Variant = "none"
INVARIANTS Own Whole
CHECK_DEADLOCK FALSE
