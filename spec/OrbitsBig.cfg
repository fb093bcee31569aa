SPECIFICATION Spec
CONSTANTS
  N = 3
  Epochs = {0, 3, 4}
  J = 1000
  Variant = "none"
  Emit = FALSE
INVARIANTS Same Stored
CHECK_DEADLOCK FALSE
