SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "some"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
