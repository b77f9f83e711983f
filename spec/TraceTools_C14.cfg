SPECIFICATION TraceSpec
CONSTANT Aspects = {"contents"}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
