SPECIFICATION Spec
CONSTANTS
  Stages = {"fill", "noise", "efficiency"}
  Seeds = {1}
  Chunks = 3
  MaxRows = 3
  Variant = "none"
INVARIANTS OwnPrefix NoRepeat
CHECK_DEADLOCK FALSE
