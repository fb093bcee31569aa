SPECIFICATION GenSpec
CONSTANTS
  N = 3
  Epochs = {0, 3, 4}
  J = 1000
  Variant = "none"
  Emit = TRUE
INVARIANTS Tell
CHECK_DEADLOCK FALSE
