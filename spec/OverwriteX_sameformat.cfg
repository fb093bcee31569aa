SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Variant = "sameformat"
INVARIANTS RefusedWhenNeeded OnlyThisRun RefusedChangesNothing OthersUntouched NotMoreThanNeeded OneKind SharingRefused UnforcedChangesNothing
CHECK_DEADLOCK FALSE
