SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Variant = "one"
INVARIANTS RefusedWhenNeeded OnlyThisRun RefusedChangesNothing OthersUntouched NotMoreThanNeeded OneKind SharingRefused UnforcedChangesNothing
CHECK_DEADLOCK FALSE
