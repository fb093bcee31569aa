SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "none"
INVARIANTS ExactlyTheRows NothingTwice Emit
CHECK_DEADLOCK FALSE
