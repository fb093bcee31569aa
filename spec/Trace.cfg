SPECIFICATION TraceSpec
INVARIANT Report
POSTCONDITION TraceComplete
CHECK_DEADLOCK FALSE
