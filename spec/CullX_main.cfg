SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "main"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
