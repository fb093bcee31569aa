SPECIFICATION Spec
CONSTANTS
  Variant = "replace"
  MaxDef = 3
INVARIANTS Kept Carried Applied
CHECK_DEADLOCK FALSE
