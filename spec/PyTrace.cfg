SPECIFICATION PySpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
