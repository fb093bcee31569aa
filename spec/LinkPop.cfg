SPECIFICATION Spec
CONSTANTS
  Objs = {a, b, c}
  MaxRows = 2
INVARIANT Whole
INVARIANT Confluent
PROPERTY Terminates
CHECK_DEADLOCK FALSE
