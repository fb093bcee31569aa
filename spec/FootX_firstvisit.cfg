SPECIFICATION Spec
CONSTANTS
  Variant = "firstvisit"
  N = 2
INVARIANTS Exactly Once Named
CHECK_DEADLOCK FALSE
