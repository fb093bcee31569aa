CONSTANTS
 Depth = 1
 Emit = FALSE
 Variant = "nan"
 Cross = {}
SPECIFICATION Spec
INVARIANTS OptionalOff InRange Needed Partly BasesHold 
