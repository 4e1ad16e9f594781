SPECIFICATION PyMpiSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
