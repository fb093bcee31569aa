SPECIFICATION Spec
CONSTANTS
  Rows = 1
  BrightLim = {1, 2, 3}
  Variant = "none"
  Lim = {1, 2}
INVARIANTS Exact Untouched Certain
CHECK_DEADLOCK FALSE
