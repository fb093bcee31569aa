SPECIFICATION Spec
CONSTANTS
  MaxLogs = 3
  MaxLines = 2
INVARIANTS EachOnce OkIffDoneLast EmptyIsNotOk
CHECK_DEADLOCK FALSE
