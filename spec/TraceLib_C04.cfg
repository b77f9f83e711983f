SPECIFICATION TraceSpec
CONSTANT Aspects = {"tiles"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
