SPECIFICATION RecSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
