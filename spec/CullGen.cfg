SPECIFICATION Spec
CONSTANTS
  N = 1
  Variant = "none"
  Emit = TRUE
INVARIANTS Tell
CHECK_DEADLOCK FALSE
