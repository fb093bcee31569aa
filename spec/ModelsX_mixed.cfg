SPECIFICATION Spec
CONSTANTS
  Variant = "mixed"
  MaxDef = 3
INVARIANTS Kept Carried Applied
CHECK_DEADLOCK FALSE
