SPECIFICATION Spec
CONSTANTS
  Gaps = {1, 59, 60, 91}
  MaxNights = 7
  EmitFrom = 7
INVARIANT PassIsDefinition
INVARIANT Emit
CHECK_DEADLOCK FALSE
