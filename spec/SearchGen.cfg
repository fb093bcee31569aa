SPECIFICATION GenSpec
CONSTANTS
  T = 0
  Ring = 10
  W = 1
  R = 1
  B = 1
  Speeds = {0}
  Variant = "none"
  Depth = 3
  Emit = TRUE
INVARIANTS Tell
CHECK_DEADLOCK FALSE
