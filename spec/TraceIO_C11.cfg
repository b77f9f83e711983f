SPECIFICATION TraceSpec
CONSTANT Aspects = {"faults"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
