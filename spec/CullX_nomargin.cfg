SPECIFICATION Spec
CONSTANTS
  N = 2
  Variant = "nomargin"
  Emit = FALSE
INVARIANTS Safe Order Near
CHECK_DEADLOCK FALSE
