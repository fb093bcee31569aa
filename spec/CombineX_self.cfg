SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "self"
INVARIANTS ExactlyTheRows NothingTwice
CHECK_DEADLOCK FALSE
