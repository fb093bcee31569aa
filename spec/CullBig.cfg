SPECIFICATION Spec
CONSTANTS
  N = 3
  Variant = "none"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
