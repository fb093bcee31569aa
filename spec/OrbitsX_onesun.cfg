SPECIFICATION Spec
CONSTANTS
  N = 2
  Epochs = {0, 3, 4}
  J = 1000
  Variant = "onesun"
  Emit = FALSE
INVARIANTS Same Stored
CHECK_DEADLOCK FALSE
