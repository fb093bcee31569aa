SPECIFICATION Spec
CONSTANTS
  Variant = "last"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
