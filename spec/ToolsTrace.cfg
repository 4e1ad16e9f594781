SPECIFICATION ToolsSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
