SPECIFICATION Spec
CONSTANT Variant = "none"
INVARIANTS OffIsEqual OnlyGoverned
CHECK_DEADLOCK FALSE
