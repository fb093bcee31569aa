SPECIFICATION Spec
CONSTANTS
  Variant = "visits"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
