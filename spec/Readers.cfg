CONSTANTS Ids = {"a", "b", "c"}
 MaxRows = 4
 MaxPre = 2
 MaxSize = 5
SPECIFICATION Spec
INVARIANTS Exact Tiles TilesAll
CHECK_DEADLOCK FALSE
