CONSTANTS Objs = {1, 2, 3, 4, 5}
 NRuns = 2
 Sizes = {1, 2, 3}
 Crosstalk = TRUE
SPECIFICATION Spec
INVARIANTS Whole Never
CHECK_DEADLOCK FALSE
