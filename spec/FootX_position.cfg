SPECIFICATION Spec
CONSTANTS
  Variant = "position"
  N = 2
INVARIANTS Exactly Once Named
CHECK_DEADLOCK FALSE
