SPECIFICATION Spec
CONSTANTS
  Variant = "none"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
