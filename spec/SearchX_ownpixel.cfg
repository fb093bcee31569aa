SPECIFICATION Spec
CONSTANTS
  T = 17
  Ring = 10
  W = 12
  R = 2
  B = 1
  Speeds = {0, 1}
  Variant = "ownpixel"
  Depth = 3
  Emit = FALSE
INVARIANTS Reported
CHECK_DEADLOCK FALSE
