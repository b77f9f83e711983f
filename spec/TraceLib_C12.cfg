SPECIFICATION TraceSpec
CONSTANT Aspects = {"mul", "src"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
