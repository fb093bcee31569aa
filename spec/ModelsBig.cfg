SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxDef = 4
INVARIANTS Kept Carried Applied
CHECK_DEADLOCK FALSE
