SPECIFICATION TraceSpec
CONSTANT Aspects = {"meaning"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
