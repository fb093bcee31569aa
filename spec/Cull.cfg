SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "none"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
