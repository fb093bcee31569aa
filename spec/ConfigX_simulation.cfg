CONSTANTS
 Depth = 1
 Emit = FALSE
 Variant = "simulation"
 Cross = {}
SPECIFICATION Spec
INVARIANTS OptionalOff InRange Needed Partly BasesHold 
