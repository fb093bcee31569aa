SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Filters = {"r", "g"}
  MaxDet = 2
  Mags = {1, 2, 4}
  Whole = FALSE
INVARIANT OneRowEach
INVARIANT Exact
CHECK_DEADLOCK FALSE
