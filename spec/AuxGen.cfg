SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Variant = "none"
  Emit = TRUE
  AllStarts = FALSE
INVARIANTS Tell
CHECK_DEADLOCK FALSE
VIEW Short
