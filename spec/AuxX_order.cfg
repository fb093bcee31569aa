SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Variant = "order"
  Emit = FALSE
  AllStarts = FALSE
INVARIANTS Once Source Lists Ready
CHECK_DEADLOCK FALSE
