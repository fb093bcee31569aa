SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxCand = 2
  Variant = "none"
  Emit = TRUE
INVARIANTS Tell
CHECK_DEADLOCK FALSE
