SPECIFICATION TraceSpec
CONSTANT Aspects = {"none"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
