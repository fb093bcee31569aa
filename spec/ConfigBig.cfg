CONSTANTS
 Depth = 2
 Emit = FALSE
 Variant = "none"
 Cross = {}
SPECIFICATION Spec
INVARIANTS OptionalOff InRange Needed Partly BasesHold 
