SPECIFICATION Spec
INVARIANTS DoneIffConsistent StaticRefusalLeavesNothing DoneReportsAll Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
