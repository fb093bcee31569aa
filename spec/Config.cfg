CONSTANTS
 Depth = 1
 Emit = FALSE
 Variant = "none"
 Cross = {}
SPECIFICATION Spec
INVARIANTS OptionalOff InRange Needed Partly BasesHold 
