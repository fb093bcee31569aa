SPECIFICATION Spec
CONSTANTS
  Variant = "nowrap"
  M = 24
INVARIANTS Exactly Named Once
CHECK_DEADLOCK FALSE
