CONSTANTS
 Depth = 2
 Emit = TRUE
 Variant = "none"
 Cross = {}
SPECIFICATION Spec
INVARIANTS Tell
