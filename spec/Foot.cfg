SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 2
INVARIANTS Exactly Once Named
CHECK_DEADLOCK FALSE
