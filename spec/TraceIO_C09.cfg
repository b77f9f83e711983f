SPECIFICATION TraceSpec
CONSTANT Aspects = {"round"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
