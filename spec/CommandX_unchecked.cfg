SPECIFICATION Spec
CONSTANTS
  Variant = "unchecked"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
