SPECIFICATION TraceSpec
CONSTANT Aspects = {"part"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
