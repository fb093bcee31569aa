SPECIFICATION Spec
CONSTANTS
  MaxLogs = 2
  MaxLines = 2
INVARIANTS EachOnce OkIffDoneLast EmptyIsNotOk Emit
CHECK_DEADLOCK FALSE
