SPECIFICATION Spec
CONSTANTS
  T = 17
  Ring = 20
  W = 2
  R = 2
  B = 1
  Speeds = {0, 1, 3}
  Variant = "wrongshift"
  Depth = 3
  Emit = FALSE
INVARIANTS Reported
CHECK_DEADLOCK FALSE
