SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  MaxPer = 2
  Widths = {1, 3}
  Values = {4, 15}
  Formats = {"hdf5"}
  Decimals = {9, 0}
  Rebuild = FALSE
INVARIANT Exact
INVARIANT OneHeader
INVARIANT Nearest
INVARIANT Monotone
INVARIANT Untouched
INVARIANT AllOut
PROPERTY Completes
CHECK_DEADLOCK FALSE
