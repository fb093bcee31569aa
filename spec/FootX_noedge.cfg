SPECIFICATION Spec
CONSTANTS
  Variant = "noedge"
  N = 2
INVARIANTS Exactly Once Named
CHECK_DEADLOCK FALSE
