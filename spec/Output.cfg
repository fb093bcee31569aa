SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  MaxPer = 2
  Widths = {1, 3}
  Values = {4, 15}
  Formats = {"csv", "sqlite3", "hdf5"}
  Decimals = {9, 0}
  Rebuild = TRUE
INVARIANT Exact
INVARIANT OneHeader
INVARIANT Nearest
INVARIANT Monotone
INVARIANT Untouched
INVARIANT AllOut
PROPERTY Completes
CHECK_DEADLOCK FALSE
