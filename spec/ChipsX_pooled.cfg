SPECIFICATION Spec
CONSTANTS
  Variant = "pooled"
  M = 24
INVARIANTS Exactly Named Once
CHECK_DEADLOCK FALSE
