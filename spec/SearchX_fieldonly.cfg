SPECIFICATION Spec
CONSTANTS
  T = 17
  Ring = 10
  W = 1
  R = 5
  B = 3
  Speeds = {0, 1}
  Variant = "fieldonly"
  Depth = 3
  Emit = FALSE
INVARIANTS Reported
CHECK_DEADLOCK FALSE
