CONSTANTS
 Depth = 1
 Emit = TRUE
 Variant = "none"
 Cross = {}
SPECIFICATION Spec
INVARIANTS Tell
