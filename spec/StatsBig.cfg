SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Filters = {"r", "g"}
  MaxDet = 5
  Mags = {1, 4}
  Whole = TRUE
INVARIANT OneRowEach
INVARIANT Exact
CHECK_DEADLOCK FALSE
