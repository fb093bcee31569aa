SPECIFICATION Spec
CONSTANTS
  Variant = "none"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven Emit
CHECK_DEADLOCK FALSE
