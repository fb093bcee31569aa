SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "anyq"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
