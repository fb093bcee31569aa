SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  MaxPer = 2
  Widths = {1, 3}
  Values = {0, 4, 5, 6, 15, 16, 25}
  Formats = {"csv", "sqlite3", "hdf5"}
  Decimals = {9, 0, 1}
  Rebuild = TRUE
INVARIANT Exact
INVARIANT OneHeader
INVARIANT Nearest
INVARIANT Monotone
INVARIANT Untouched
INVARIANT AllOut
PROPERTY Completes
CHECK_DEADLOCK FALSE
