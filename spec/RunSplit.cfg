CONSTANTS Objs = {1, 2, 3, 4, 5}
 NRuns = 2
 Sizes = {1, 2, 3}
 Crosstalk = FALSE
SPECIFICATION Spec
INVARIANTS Whole Never
PROPERTY Ends
CHECK_DEADLOCK FALSE
