SPECIFICATION Spec
CONSTANTS
  Variant = "anysurvey"
INVARIANTS TypeOK RefusedIffWrong RightSimulation SettingsAreThoseGiven
CHECK_DEADLOCK FALSE
