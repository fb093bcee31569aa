SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxDef = 3
INVARIANTS Kept Carried Applied
CHECK_DEADLOCK FALSE
