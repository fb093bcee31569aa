SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "append"
INVARIANTS ExactlyTheRows NothingTwice
CHECK_DEADLOCK FALSE
