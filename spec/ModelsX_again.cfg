SPECIFICATION Spec
CONSTANTS
  Variant = "again"
  MaxDef = 3
INVARIANTS Kept Carried Applied
CHECK_DEADLOCK FALSE
