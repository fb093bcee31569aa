SPECIFICATION Spec
CONSTANT Variant = "vigdepth"
INVARIANTS OffIsEqual OnlyGoverned
CHECK_DEADLOCK FALSE
