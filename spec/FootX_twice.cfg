SPECIFICATION Spec
CONSTANTS
  Variant = "twice"
  N = 2
INVARIANTS Exactly Once Named
CHECK_DEADLOCK FALSE
