SPECIFICATION Spec
CONSTANTS
  Stages = {"fill", "noise", "efficiency"}
  Seeds = {1, 2}
  Chunks = 2
  MaxRows = 2
  Variant = "shared"
INVARIANTS OwnPrefix
CHECK_DEADLOCK FALSE
