SPECIFICATION ViewSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
