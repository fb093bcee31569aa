SPECIFICATION Spec
CONSTANTS
  Stages = {"fill", "noise", "efficiency"}
  Seeds = {1, 2}
  Chunks = 2
  MaxRows = 2
  Variant = "none"
INVARIANTS OwnPrefix NoRepeat
CHECK_DEADLOCK FALSE
