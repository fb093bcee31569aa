SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Writes = 2
  Variant = "none"
INVARIANTS DoneMeansWhole DoneOnlyAtTheEnd EndedMeansDone StoppedIsNotDone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
