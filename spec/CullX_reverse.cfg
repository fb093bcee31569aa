SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "reverse"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
