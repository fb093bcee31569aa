SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxCand = 2
  Variant = "overwrite"
  Emit = FALSE
INVARIANTS FileIsUsed SameRows SameOrder
CHECK_DEADLOCK FALSE
