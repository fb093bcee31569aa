SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Variant = "none"
INVARIANTS RefusedWhenNeeded OnlyThisRun RefusedChangesNothing OthersUntouched NotMoreThanNeeded OneKind SharingRefused UnforcedChangesNothing Emit
CHECK_DEADLOCK FALSE
