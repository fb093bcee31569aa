SPECIFICATION Spec
CONSTANTS
  Variant = "nocomplex"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
