SPECIFICATION FaultSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
