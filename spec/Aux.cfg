SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Variant = "none"
  Emit = FALSE
  AllStarts = FALSE
INVARIANTS Once Source Lists Ready
CHECK_DEADLOCK FALSE
