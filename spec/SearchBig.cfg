SPECIFICATION Spec
CONSTANTS
  T = 30
  Ring = 10
  W = 4
  R = 6
  B = 3
  Speeds = {0, 1, 3, 5}
  Variant = "none"
  Depth = 3
  Emit = FALSE
INVARIANTS Cached Within Mapped Reported
CHECK_DEADLOCK FALSE
