SPECIFICATION Spec
CONSTANTS
  T = 17
  Ring = 10
  W = 4
  R = 5
  B = 2
  Speeds = {0, 1, 3}
  Variant = "halfjump"
  Depth = 3
  Emit = FALSE
INVARIANTS Cached
CHECK_DEADLOCK FALSE
