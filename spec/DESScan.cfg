SPECIFICATION Spec
CONSTANTS
  Gaps = {1, 59, 60, 90}
  MaxNights = 8
  EmitFrom = 99
INVARIANT PassIsDefinition
PROPERTY Monotone
CHECK_DEADLOCK FALSE
