SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Variant = "none"
INVARIANTS ExactlyTheRows NothingTwice
CHECK_DEADLOCK FALSE
