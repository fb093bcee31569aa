SPECIFICATION Spec
CONSTANT Variant = "psfdraw"
INVARIANTS OffIsEqual OnlyGoverned
CHECK_DEADLOCK FALSE
