SPECIFICATION Spec
CONSTANTS
  Variant = "firstcentre"
  M = 24
INVARIANTS Exactly Named Once
CHECK_DEADLOCK FALSE
