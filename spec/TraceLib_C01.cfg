SPECIFICATION TraceSpec
CONSTANT Aspects = {"mul"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
