SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "shallow"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
