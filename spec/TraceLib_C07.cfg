SPECIFICATION TraceSpec
CONSTANT Aspects = {"order"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
