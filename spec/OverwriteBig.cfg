SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  Variant = "none"
INVARIANTS RefusedWhenNeeded OnlyThisRun RefusedChangesNothing OthersUntouched NotMoreThanNeeded OneKind SharingRefused UnforcedChangesNothing
CHECK_DEADLOCK FALSE
