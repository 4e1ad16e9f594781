SPECIFICATION ThreadSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
