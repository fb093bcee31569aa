SPECIFICATION Spec
CONSTANTS
  Gaps = {1, 30, 59, 60, 89, 90}
  MaxNights = 9
  EmitFrom = 99
INVARIANT PassIsDefinition
PROPERTY Monotone
CHECK_DEADLOCK FALSE
