SPECIFICATION Spec
CONSTANTS
  Filters = {1, 2, 3}
  Main = 1
  Variant = "unmasked"
INVARIANTS Own Whole
CHECK_DEADLOCK FALSE
