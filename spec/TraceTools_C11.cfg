SPECIFICATION TraceSpec
CONSTANT Aspects = {"faults"}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
