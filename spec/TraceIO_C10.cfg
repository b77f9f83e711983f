SPECIFICATION TraceSpec
CONSTANT Aspects = {"damage"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
