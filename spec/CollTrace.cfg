SPECIFICATION CollSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
