SPECIFICATION Spec
CONSTANTS
  Stages = {"fill", "noise", "efficiency"}
  Seeds = {1, 2}
  Chunks = 2
  MaxRows = 2
  Variant = "restart"
INVARIANTS NoRepeat
CHECK_DEADLOCK FALSE
