SPECIFICATION Spec
CONSTANTS
  Rows = 1
  BrightLim = {1, 2}
  Variant = "inclusive"
  Lim = {1}
INVARIANTS Exact Untouched Certain
CHECK_DEADLOCK FALSE
