SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  M = 24
INVARIANTS Exactly Named Once
CHECK_DEADLOCK FALSE
