SPECIFICATION Spec
CONSTANTS
  Variant = "swap"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
