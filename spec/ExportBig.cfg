SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxCand = 2
  Variant = "none"
  Emit = FALSE
INVARIANTS FileIsUsed SameRows SameOrder
CHECK_DEADLOCK FALSE
