SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Filters = {"r", "g"}
  MaxDet = 4
  Mags = {1, 2, 4}
  Whole = TRUE
INVARIANT OneRowEach
INVARIANT Exact
CHECK_DEADLOCK FALSE
