SPECIFICATION TraceSpec
CONSTANT Aspects = {"mul", "frame", "src", "size"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
